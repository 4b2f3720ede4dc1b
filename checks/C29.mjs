const set = (...xs) => ({ set: xs })
const job = (name, consts, more) => ({
  name,
  spec: 'StopExpr',
  consts: { Counts: set(1, 2), Names: set('*', 'a', 'b'), Consts: set(true), Hists: { tla: 'UNION {[1..n -> {<<>>, <<"a">>, <<"b">>, <<"c", "a">>}] : n \\in 1..3}' }, MaxOps: 4, MaxArity: 2, Sim: false, ...consts },
  invariants: ['DeMorgan'],
  driver: 'stopexpr',
  ...more,
})
export default {
  id: 'C29',
  rule: 'every condition expression up to the given size, evaluated after every history of up to three steps (84), in random order and twice; and as the stop condition of runs of the three loops',
  exhaustive: true,
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return [
      job('small', { Counts: set(0, 1, 2, 3), Consts: set(true, false), MaxOps: big ? 4 : 3, MaxArity: 3 }, { expectCounters: { 'run:gen': 50, 'run:resp': 50, 'run:stream': 50 } }),
      job('nested', { Counts: set(2), Names: set('a'), Consts: set(), MaxOps: big ? 7 : 5 }, { limit: big ? 20000 : 1500 }),
      job('large', { Counts: set(0, 1, 2, 3, 4), Consts: set(true, false), MaxOps: 14, MaxArity: 4, Names: set('*', 'a', 'b', 'c'), Sim: true }, { simulate: { depth: 20, num: big ? 20000 : 3000 }, workers: 1 }),
    ]
  },
}
