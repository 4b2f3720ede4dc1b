export const audioJob = (name, Kind, consts, more) => ({
  name: `${Kind}-${name}`,
  spec: 'AudioStream',
  consts: { Kind, Asks: { set: ['ok'] }, Events: { set: ['delta'] }, Cuts: false, Cancels: { set: [] }, MaxEvents: 3, Sim: false, ...consts },
  invariants: ['Complete', 'Prefix', 'Settled', 'Agree', 'FailedText'],
  properties: ['SettlesOnce'],
  driver: 'audio',
  variants: [{ watch: 'all' }, { watch: 'streams' }, { watch: 'promise' }],
  ...more,
})
export default {
  id: 'C25',
  rule: 'every sequence of server events (text or audio, empty, completion with and without usage, unknown, malformed, error), loss of the connection, failure of the request and cancellation of each output within the bounds, in random byte splits; after each operation the outputs and the promise are compared with the model, with all outputs watched, only the streams, or only the promise',
  exhaustive: true,
  jobs: ({ tier, S }) => {
    const big = tier === 'thorough'
    return ['speech', 'transcription'].flatMap(K => [
      audioJob('all', K, { Asks: S('ok', 'net', 'http', 'empty'), Cancels: S('full', 'text'), Cuts: true, Events: S('delta', 'blank', 'done', 'usage', 'unknown', 'badjson', 'remote', ...(K === 'speech' ? ['badaudio'] : [])), MaxEvents: big ? 4 : 3 }, { limit: big ? 20000 : 1500, expectCounters: { [`${K}:ok`]: 100, [`${K}:cut`]: 30, [`${K}:badjson`]: 10 } }),
      audioJob('ask', K, { Asks: S('ok', 'net', 'http', 'empty'), MaxEvents: 1 }, { expectCounters: { [`${K}:empty`]: 1, [`${K}:http`]: 1, [`${K}:net`]: 1 }, renders: 6 }),
      audioJob('long', K, { Cancels: S('full', 'text'), Cuts: true, Events: S('delta', 'blank', 'done', 'usage', 'unknown'), MaxEvents: 15, Sim: true }, { simulate: { depth: 20, num: big ? 10000 : 800 }, workers: 1, properties: [] }),
    ])
  },
}
