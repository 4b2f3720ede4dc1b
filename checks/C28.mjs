const set = (...xs) => ({ set: xs })
const job = (name, consts, more) => ({
  name,
  spec: 'Schema',
  consts: { Roots: set('obj'), Kinds: set('obj', 'leaf', 'list', 'any', 'maybe', 'bool', 'bare'), Extras: set('none'), MaxNodes: 4, MaxProps: 2, Sim: false, ...consts },
  invariants: ['Reachable', 'OnlyThose'],
  driver: 'schema',
  ...more,
})
export default {
  id: 'C28',
  rule: 'every schema tree up to the given number of nodes (kinds of nodes, of containment and of additional properties; names and other keywords varied by rendering); tools built by all three builders from each of them',
  exhaustive: true,
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return [
      job('trees', { MaxNodes: big ? 6 : 5 }, { limit: big ? 80000 : 8000 }),
      job('roots', { Extras: set('none', 'true', 'false', 'schema'), MaxNodes: 3, Roots: set('obj', 'leaf', 'list', 'any', 'maybe', 'bare') }, { limit: big ? undefined : 4000, renders: 2 }),
      job('deep', { Kinds: set('obj', 'bare', 'leaf', 'list'), MaxNodes: big ? 8 : 6, MaxProps: big ? 3 : 2 }, { limit: big ? 40000 : 5000, expectCounters: { 'tool:issues': 100, 'tool:value': 100 } }),
      job('wide', { Extras: set('none', 'true', 'schema'), Kinds: set('obj', 'leaf', 'list', 'any', 'maybe', 'bool', 'bare'), MaxNodes: 25, MaxProps: 6, Sim: true }, { simulate: { depth: 30, num: big ? 20000 : 1500 }, workers: 1 }),
    ]
  },
}
