const set = (...xs) => ({ set: xs })
const job = (name, kinds, pieces, consts, more) => ({
  name,
  spec: 'Smooth',
  consts: { Kinds: set(...kinds), Delays: set(10), Pieces: set(...pieces.map(p => [...p])), MaxPieces: 2, MaxTime: 1, Ends: set('close'), Sim: false, ...consts },
  invariants: ['Lossless', 'Whole', 'AtBoundary', 'Paced', 'Prompt'],
  driver: 'smooth',
  ...more,
})
export default {
  id: 'C18',
  rule: 'every sequence of arriving pieces of text and of moments at which they arrive, the chunking and the delay; simulated streams with every number of chunks, delays and moment of cancelling; under a virtual clock, output compared after every step, with times',
  exhaustive: true,
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return [
      job('word', ['word'], ['a', ' ', 'a a ', ' an', 'aa', 'n a'], { Delays: set(0, 10, 25), Ends: set('close', 'error'), MaxPieces: big ? 4 : 3 }, { limit: big ? 60000 : 4000 }),
      job('line', ['line'], ['an', 'n', 'a', 'nana'], { MaxPieces: big ? 4 : 3 }, { limit: big ? 30000 : 2500 }),
      job('custom', ['comma', 'char', 'pair', 'never'], ['a', ',', 'a,a,', 'aaa', 'a'], { Delays: set(5), MaxPieces: 3 }, { limit: big ? 30000 : 4000, renders: 2 }),
      job('long', ['word', 'line', 'comma', 'char', 'pair'], ['a', ' ', 'n', ',', 'aa a,', ' n ', 'a,aan', '  aa', 'a a a ', 'na,'], { Delays: set(0, 1, 10, 40), Ends: set('close', 'error'), MaxPieces: 12, MaxTime: 400, Sim: true }, { simulate: { depth: 120, num: big ? 20000 : 2500 }, workers: 1, renders: 2, expectCounters: { 'smooth:word': 20, 'smooth:line': 20 } }),
      { name: 'simulate', spec: 'Simulate', consts: { Counts: set(0, 1, 2, 3, 5), Initials: set(0, 1, 30), Delays: set(0, 1, 20), Cancels: true }, invariants: ['OnTime'], driver: 'smooth', renders: big ? 40 : 5 },
    ]
  },
}
