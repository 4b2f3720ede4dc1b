const KINDS = { embed: 'json', embedMany: 'json', generateImage: 'json', generateObject: 'chat', generateObjectArray: 'chat', generateSpeech: 'bytes', generateText: 'chat', generateTranscription: 'json', listModels: 'json', responses: 'stream', retrieveModel: 'json', streamObject: 'stream', streamObjectArray: 'stream', streamSpeech: 'stream', streamText: 'stream', streamTranscription: 'stream', telEmbed: 'json', telEmbedMany: 'json', telGenerateText: 'chat', telStreamText: 'stream' }
const ALL = ['net', 'netsync', 'redirect', 'client', 'retryable', 'server', 'badnobody', 'badcut', 'nobody', 'notstream', 'cut', 'notjson', 'blank', 'nochoices', 'errormsg', 'good', 'goodother']
export const httpJob = (name, eps, reactions, consts, more) => ({
  name,
  spec: 'Http',
  consts: { Endpoints: { set: eps }, KindOf: { tla: `[e \\in {${eps.map(e => `"${e}"`).join(', ')}} |-> CASE ${eps.map(e => `e = "${e}" -> "${KINDS[e]}"`).join(' [] ')}]` }, Reactions: { set: reactions }, MaxCalls: 1, Sim: false, ...consts },
  invariants: ['Success', 'OneAnswer'],
  driver: 'http',
  ...more,
})
export default {
  id: 'C14',
  rule: 'every endpoint crossed with every reaction of the server, statuses and body texts varied by rendering; calls in flight together in every interleaving (pairs) and in random longer histories',
  exhaustive: true,
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    const eps = Object.keys(KINDS)
    return [
      httpJob('single', eps, ALL, {}, { renders: big ? 200 : 40, expectCounters: { 'out:status': 100, 'out:parse': 50, 'out:empty_body': 20, 'out:invalid_body': 20, 'out:no_choices': 10, 'out:remote': 10, 'out:network': 30, 'out:broken': 30, 'out:ok': 50 } }),
      httpJob('pairs', ['generateText', 'streamText', 'embed', 'generateTranscription', 'generateSpeech'], ['net', 'client', 'notjson', 'nobody', 'good'], { MaxCalls: 2 }, { limit: big ? undefined : 1500 }),
      httpJob('many', eps, ALL, { MaxCalls: 6, Sim: true }, { simulate: { depth: 14, num: big ? 20000 : 2000 }, workers: 1 }),
    ]
  },
}
