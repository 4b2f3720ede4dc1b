const facets = ['messages', 'error', 'timing']
const targets = ['stream', 'resp', 'transcription', 'speech', 'tstream'].map(target => ({ target }))
export const sseJob = (name, consts, more) => ({
  name,
  spec: 'SSE',
  consts: { Sim: false, ...consts },
  invariants: ['Ordered', 'Bounded', 'FailsAtFirst', 'Complete'],
  driver: 'sse',
  variants: targets,
  facets,
  ...more,
})
export default {
  id: 'C13',
  rule: 'every sequence of lines within the bounds (messages in one or two data lines, comments, fields, junk, empty events, end marker, malformed and error messages), each spelled at random, fed line by line in arbitrary pieces and then whole, byte by byte, in random chunks and cut in two at random positions (job splits: at every position)',
  jobs: ({ tier, S }) => {
    const big = tier === 'thorough'
    const K = S('blank', 'ok', 'half1', 'half2', 'mention', 'err', 'done', 'empty', 'bad', 'comment', 'field', 'junk')
    return [
      sseJob('lines', { MaxLines: big ? 5 : 4, Kinds: K }, { limit: big ? 20000 : 700 }),
      sseJob('events', { MaxLines: 6, Kinds: S('blank', 'ok', 'err', 'bad', 'mention') }, { limit: big ? 8000 : 400 }),
      sseJob('errors', { MaxLines: 5, Kinds: S('blank', 'ok', 'err', 'bad', 'mention', 'comment') }, { constraint: 'Single', limit: big ? undefined : 400, expectCounters: { 'failed:parse': 100, 'failed:remote': 50 } }),
      sseJob('long', { MaxLines: 14, Kinds: S('blank', 'ok', 'half1', 'half2', 'mention', 'done', 'comment', 'field'), Sim: true }, { simulate: { num: big ? 4000 : 200, depth: 20 }, workers: 1 }),
      sseJob('huge', { MaxLines: 4, Kinds: S('blank', 'ok', 'err', 'done') }, { constraint: 'Single', huge: true, limit: big ? 400 : 30 }),
      sseJob('splits', { MaxLines: 4, Kinds: S('blank', 'ok', 'mention', 'done', 'err', 'half1', 'half2') }, { everySplit: true, limit: big ? 1500 : 40 }),
    ]
  },
}
