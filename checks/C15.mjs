const FORM = ['generateTranscription', 'streamTranscription']; const GET = ['listModels', 'retrieveModel']
const EPS = ['embed', 'embedMany', 'generateImage', 'generateObject', 'generateObjectArray', 'generateSpeech', 'generateText', 'generateTranscription', 'listModels', 'responses', 'retrieveModel', 'streamObject', 'streamObjectArray', 'streamSpeech', 'streamText', 'streamTranscription', 'telEmbed', 'telEmbedMany', 'telGenerateText', 'telStreamText']
const set = xs => ({ set: xs })
const fn = (eps, yes) => ({ tla: `[e \\in {${eps.map(e => `"${e}"`).join(', ')}} |-> e \\in {${yes.map(e => `"${e}"`).join(', ')}}]` })
const KINDS = ['null', 'false', 'zero', 'empty', 'list', 'nested', 'text', 'undefined']
const HEADS = ['none', 'blank', 'record', 'instance', 'auth', 'AUTH', 'instauth', 'ctype', 'CTYPE', 'instctype']
const job = (name, consts, more) => ({
  name,
  spec: 'Request',
  consts: { Endpoints: set(EPS), Bases: set(['plain']), Keys: set(['key']), Heads: set(['none']), Fetches: set(['own']), Signals: set(['none']), FormOf: fn(EPS, FORM), GetOf: fn(EPS, GET), ValueKinds: set(KINDS), MaxOpts: 0, MaxCalls: 1, Sim: false, ...consts },
  invariants: ['Bearer', 'Defined', 'Independent'],
  driver: 'request',
  ...more,
})
export default {
  id: 'C15',
  rule: 'every endpoint crossed with base URL form, key, headers form, fetch and signal; every endpoint with every pair of further options over all value kinds; random histories of calls sharing their configuration. Names, values, tools and client-side options are drawn per rendering',
  exhaustive: true,
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return [
      job('config', { Bases: set(['plain', 'slash', 'root', 'rootslash', 'deep', 'deepslash']), Fetches: set(['own', 'global']), Heads: set(HEADS), Keys: set(['absent', 'undefined', 'empty', 'key']), Signals: set(['none', 'signal']) }, { limit: big ? undefined : 5000, expectCounters: { 'auth:bearer': 100, 'auth:custom': 100, 'auth:none': 100, 'ctype:custom': 100, 'ctype:json': 100, 'ctype:none': 100 } }),
      job('options', { MaxOpts: 2 }, { renders: big ? 10 : 1 }),
      job('history', { Bases: set(['plain', 'slash', 'deep', 'root']), Fetches: set(['own', 'global']), Heads: set(HEADS), Keys: set(['absent', 'undefined', 'empty', 'key']), MaxCalls: 5, MaxOpts: 3, Signals: set(['none', 'signal']), Sim: true }, { simulate: { depth: 7, num: big ? 10000 : 800 }, workers: 1 }),
    ]
  },
}
