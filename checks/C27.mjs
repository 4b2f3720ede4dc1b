const ALL = ['embed', 'embedMany', 'listModels', 'retrieveModel', 'speech', 'transcription', 'streamSpeech', 'streamTranscription']
const job = (name, consts, more) => ({
  name,
  spec: 'Media',
  consts: { Kinds: { set: ALL }, MaxCalls: 1, Options: 'all', Fates: { set: ['ok'] }, MaxItems: 2, Sim: false, ...consts },
  invariants: ['Own', 'Faithful'],
  driver: 'media',
  variants: [{ fetch: 'own' }, { fetch: 'global' }],
  ...more,
})
export default {
  id: 'C27',
  rule: 'every endpoint with every subset of its optional settings and every size of answer within the bounds, every interleaving of starts and answers of concurrent calls (one of which may fail); the request (URL, method, headers, body or form fields, file bytes and name) and the result of each call are compared with the model, with the supplied and the global fetch',
  exhaustive: true,
  jobs: ({ tier, S }) => {
    const big = tier === 'thorough'
    return [
      job('options', { MaxItems: 3 }, { expectCounters: { 'embedMany:ok': 20, 'retrieveModel:ok': 1, 'transcription:ok': 100 }, renders: big ? 12 : 3 }),
      job('pairs', { MaxCalls: 2, Options: 'few', Fates: S('ok', 'http'), MaxItems: 1 }, { expectCounters: { 'embed:http': 10, 'speech:ok': 10 }, limit: big ? 20000 : 2500 }),
      job('large', { Kinds: S('embed', 'embedMany', 'listModels'), Options: 'few', MaxItems: 14 }, {}),
      job('crowd', { MaxCalls: 5, Fates: S('ok', 'ok', 'http'), MaxItems: 3, Sim: true }, { simulate: { depth: 12, num: big ? 8000 : 800 }, workers: 1, expectCounters: { 'transcription:ok': 50 } }),
    ]
  },
}
