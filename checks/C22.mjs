import { chatJob, S as T, usagesOf, wild } from '../lib/chatjobs.mjs'
import { toolJob } from './C03.mjs'
import { stepJobs } from './C08.mjs'
import { httpJob } from './C14.mjs'

const mirror = (name, consts, more) => ({
  name,
  spec: 'Mirror',
  consts: { Ops: { set: ['gen', 'stream'] }, Given: { set: ['some'] }, Shapes: { set: ['text'] }, Usages: { set: ['full'] }, Ins: { set: ['plain'] }, Outs: { set: ['plain'] }, Posts: { set: ['none'] }, MaxCalls: 1, MaxSteps: 2, Sim: false, ...consts },
  invariants: ['Same', 'NoTrace'],
  driver: 'mirror',
  facets: ['mirror', 'input'],
  ...more,
})
const VALUES = ['plain', 'undef', 'fn', 'map', 'bigint', 'cyclic', 'tojson', 'null']
const OUTS = ['plain', 'string', 'parts', 'undef', 'fn', 'map', 'bigint', 'cyclic', 'tojson', 'null', 'throw', 'throwodd']
const SHAPES = ['text', 'null', 'missing', 'parts', 'nomessage', 'nochoices', 'http', 'net']

export default {
  id: 'C22',
  rule: 'two lanes of one model, plain and instrumented, run in front of the same environment and every observation compared (exhaustive over tool option, answer shape, usage, kinds of validated inputs and results, also such without JSON form; random longer runs), with and without a registered tracer provider; and the instrumented functions alone replayed against the full specifications of the loop, the tool call, the streamed step and the HTTP outcomes',
  exhaustive: true,
  jobs: ({ tier, S }) => {
    const big = tier === 'thorough'
    const only = f => [{ flavour: f }]
    return [
      mirror('mirror-values', { Ins: T(...VALUES), Outs: T(...OUTS), Posts: T('none', 'repair') }, { otel: true, renders: big ? 100 : 4, expectCounters: { 'attr:none': 100, 'attr:json': 100, 'end:ok': 100, 'end:fail': 20 } }),
      mirror('mirror-answers', { Given: T('absent', 'undefined', 'empty', 'some', 'frozen'), Shapes: T(...SHAPES), Usages: T('full', 'absent', 'null', 'partial') }, { otel: true, limit: big ? undefined : 2500 }),
      mirror('mirror-untraced', { Given: T('absent', 'empty', 'some', 'frozen'), Shapes: T('text', 'http'), Usages: T('full', 'absent'), Ins: T('plain', 'bigint'), Outs: T('plain', 'cyclic', 'throw') }, { limit: big ? undefined : 800 }),
      mirror('mirror-embed', { Ops: T('embed', 'embedMany'), Shapes: T('text', 'http', 'net'), Usages: T('full', 'absent', 'null', 'partial'), MaxSteps: 1 }, { otel: true, renders: big ? 200 : 30 }),
      mirror('mirror-long', { Given: T('some', 'frozen', 'empty'), Shapes: T('text', 'null', 'missing', 'parts', 'text', 'text'), Usages: T('full', 'absent', 'null', 'partial'), Ins: T(...VALUES), Outs: T('plain', 'string', 'parts', 'undef', 'fn', 'map', 'null', 'throw', 'throwodd'), MaxCalls: 3, MaxSteps: 5, Sim: true }, { otel: true, simulate: { depth: 40, num: big ? 20000 : 600 }, workers: 1 }),
      ...['gen', 'stream'].flatMap((Api, i) => [
        chatJob(`${Api}-tools`, { Api, MaxSteps: 2, CallCounts: T(0, 1, 2), CallKinds: T('exec', 'unknown', 'badargs', 'noname'), ToolOuts: T('ok', 'throw'), Usages: usagesOf(Api) }, { variants: only(`t${Api}`), limit: big ? 12000 : 600, otel: i === 0 }),
        chatJob(`${Api}-failures`, { Api, MaxSteps: 2, CallCounts: T(0, 1), ToolOuts: T('ok', 'throw'), StopAns: T('no', 'throw'), Preps: T('none', 'throw'), StepCbs: T('ok', 'throw'), FinCbs: T('ok', 'throw'), Mids: Api === 'stream', WaitFails: T('net', 'http', 'empty', 'badjson', ...(Api === 'gen' ? ['nochoices'] : [])), MidFails: T('cut', 'badjson', 'srverr') }, { variants: [...only(`t${Api}`), ...(Api === 'stream' ? [{ flavour: 'tstream', lazy: true, partial: true }] : [])], limit: big ? 12000 : 600 }),
        chatJob(`${Api}-aborts`, { Api, MaxSteps: 2, CallCounts: T(0, 1, 2), ToolOuts: T('ok', 'throw'), StopAns: T('no', 'abort'), Preps: T('none', 'abort'), StepCbs: T('ok', 'abort'), Mids: Api === 'stream', AbortAt: T('start', 'wait', 'mid', 'tools'), Fetches: T('honour', 'ignore') }, { variants: only(`t${Api}`), limit: big ? 12000 : 600, otel: i === 1 }),
        chatJob(`${Api}-overrides`, { Api, MaxSteps: 3, CallCounts: T(0, 1), StopAns: T('no'), Preps: T('none', 'all', 'model', 'input', 'leak', 'mutate', 'tool') }, { variants: only(`t${Api}`), limit: big ? 8000 : 400 }),
        wild(Api, big ? 4000 : 150, { variants: only(`t${Api}`), otel: true }),
      ]),
      chatJob('stream-cancels', { Api: 'stream', MaxSteps: 2, CallCounts: T(0, 1), MaxCancels: 2, Mids: true, StopAns: T('no') }, { variants: only('tstream'), limit: big ? 8000 : 500 }),
      chatJob('stream-events', { Api: 'stream', MaxSteps: 2, CallCounts: T(0, 1), StopAns: T('no'), EvThrows: T(1, 3, 6, 7, 8, 9, 11), Mids: true }, { variants: only('tstream'), otel: true, limit: big ? 5000 : 200 }),
      ...stepJobs({ S, big }).map(j => ({ ...j, name: `step-${j.name}`, limit: j.limit && Math.min(j.limit, big ? 12000 : 400), simulate: j.simulate && { ...j.simulate, num: big ? 5000 : 300 }, variants: only('tstream') })),
      ...[
        toolJob('tool-inputs', { Names: S('known', 'unknown', 'missing'), Args: S('object', 'array', 'scalar', 'null', 'blank', 'bad', 'missing'), Vals: S('absent', 'accept', 'transform', 'reject', 'throw'), Outs: S('object', 'parts', 'throw') }, { otel: true }),
        toolJob('tool-aborts', { Names: S('known', 'unknown'), Args: S('object', 'bad'), Vals: S('absent', 'accept', 'reject', 'throw'), Outs: S('string', 'throw', 'throwtext'), AbortAt: S('start', 'validate', 'exec', 'pre', 'post'), Pres: S('none', 'args'), Posts: S('none', 'replace') }, { limit: big ? undefined : 500 }),
        toolJob('tool-hooks', { Names: S('known', 'unknown'), Args: S('object'), Vals: S('absent', 'transform', 'reject'), Outs: S('string', 'throw'), Pres: S('none', 'same', 'both', 'args', 'name', 'badargs', 'unknown', 'throw', 'answer', 'wrongcall', 'wrongresult'), Posts: S('none', 'replace', 'throw', 'wrongid') }, { limit: big ? undefined : 500 }),
      ].map(j => ({ ...j, renders: big ? 10 : 1, variants: [{ flavour: 'tgen' }, { flavour: 'tstream' }] })),
      httpJob('http', ['telEmbed', 'telEmbedMany', 'telGenerateText', 'telStreamText'], ['net', 'netsync', 'redirect', 'client', 'retryable', 'server', 'badnobody', 'badcut', 'nobody', 'notstream', 'cut', 'notjson', 'blank', 'nochoices', 'errormsg', 'good', 'goodother'], {}, { renders: big ? 100 : 15 }),
    ]
  },
}
