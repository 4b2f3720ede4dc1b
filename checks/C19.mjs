const set = (...xs) => ({ set: xs })
export const elementsJob = (name, consts, more) => ({
  name,
  spec: 'Elements',
  consts: { Modes: set('array', 'object'), Scalars: set('num', 'str', 'lit'), MaxTokens: 3, MaxDepth: 4, Ends: set('close', 'error'), Sim: false, ...consts },
  invariants: ['Converging', 'Ordered', 'Successor'],
  driver: 'elements',
  ...more,
})
export default {
  id: 'C19',
  rule: 'every JSON answer up to the given number of tokens and depth (values, escapes and white space varied by rendering), split into deltas of one character up to the whole; outputs compared after every delta',
  exhaustive: true,
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return [
      elementsJob('small', { MaxTokens: big ? 6 : 5 }, { limit: big ? 40000 : 1500, renders: big ? 3 : 2 }),
      elementsJob('array', { Ends: set('close'), Modes: set('array'), Scalars: set('num', 'str'), MaxTokens: big ? 8 : 6 }, { limit: big ? 40000 : 1200, expectCounters: { 'close:array': 200, 'emptyarray': 0 } }),
      elementsJob('object', { Ends: set('close'), Modes: set('object'), Scalars: set('str', 'num'), MaxTokens: big ? 11 : 8 }, { limit: big ? 40000 : 1200, expectCounters: { 'close:object': 200 } }),
      elementsJob('long', { Ends: set('close', 'error', 'cut'), MaxTokens: 30, MaxDepth: 6, Sim: true }, { simulate: { depth: 60, num: big ? 20000 : 1500 }, workers: 1, renders: 2 }),
      elementsJob('wide', { Ends: set('close'), Modes: set('array', 'object'), MaxTokens: 40, MaxDepth: 1, Sim: true }, { simulate: { depth: 60, num: big ? 4000 : 200 }, workers: 1 }),
      elementsJob('exponents', { Ends: set('close'), Modes: set('array'), Scalars: set('num'), MaxTokens: 3 }, { exponents: true, limit: 40 }),
    ]
  },
}
