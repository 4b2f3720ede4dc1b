const set = (...xs) => ({ set: xs })
const chars = s => [...s]
const OPEN = ['<', 't', '>']; const CLOSE = ['<', '/', 't', '>']
export const reasoningJob = (name, tokens, consts, more) => ({
  name,
  spec: 'Reasoning',
  consts: { Tokens: set(...tokens), Tags: set(['t']), Starts: set(true, false), MaxTokens: 4, Ends: set('close', 'error'), Sim: false, ...consts },
  invariants: ['SameAsWhole', 'NothingHeldBack', 'Monotone'],
  driver: 'reasoning',
  ...more,
})
export default {
  id: 'C17',
  rule: 'every text up to the given number of characters or of pieces (whole tags, beginnings of tags, plain characters), fed whole, character by character and in random pieces, output compared after every piece; tag names that overlap themselves; input failures',
  exhaustive: true,
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    const single = ['<', '/', 't', '>', 'x'].map(chars)
    const pieces = [OPEN, CLOSE, ['x'], ['<'], ['<', '/'], ['<', 't'], ['<', '/', 't'], ['t', '>'], ['>']]
    return [
      reasoningJob('chars', single, { MaxTokens: big ? 7 : 5, Starts: set(false, true) }, { modes: [0, 2], limit: big ? undefined : 6000 }),
      reasoningJob('pieces', pieces, { Ends: set('close'), MaxTokens: big ? 6 : 4 }, { limit: big ? 200000 : 9000 }),
      reasoningJob('blocks', [OPEN, CLOSE, ['x'], ['<', '/']], { Ends: set('close'), MaxTokens: big ? 9 : 6 }, { limit: big ? undefined : 5000, expectCounters: { 'whole:exact': 10, 'whole:loose': 10 } }),
      reasoningJob('self', [['t', 't'], ['t'], ['<', 't'], ['<', '/', 't', 't', '>'], ['<', 't', 't', '>'], ['<', '/'], ['<'], ['>'], ['x']], { Ends: set('close'), MaxTokens: big ? 6 : 4, Tags: set(['t', 't'], ['t', 't', 'u', 't', 't'], ['<'], ['<', '/', '<']) }, { limit: big ? 200000 : 6000 }),
      reasoningJob('long', [OPEN, CLOSE, OPEN, CLOSE, ['x'], ['y', 'x'], ['<', '/', 't'], ['<', 't'], ['>'], ['t']], { MaxTokens: 30, Sim: true }, { simulate: { depth: 32, num: big ? 20000 : 1500 }, workers: 1 }),
    ]
  },
}
