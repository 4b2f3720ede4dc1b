import { pairJob } from './C32.mjs'
import { toolJob } from './C03.mjs'
import { httpJob } from './C14.mjs'
import { chatJob, INV, S as T, usagesOf } from '../lib/chatjobs.mjs'

const SINV = ['OneChatSpan', 'OnePerStep', 'OnePerTool', 'ToolSpansOfRunning', 'AllEnded', 'Nested', 'Truth', 'Success']
export const spanJob = (name, consts, more) => chatJob(name, consts, {
  spec: 'Spans', specification: 'SSpec', emitter: 'SEmit', invariants: [...INV, ...SINV], properties: [],
  otel: true, variants: [{ flavour: `t${consts.Api}` }], facets: ['spans', 'status', 'attrs'], ...more,
})
export default {
  id: 'C23',
  rule: 'ChatLoop extended with the spans of the run: every behaviour within the bounds (steps, calls, tool outcomes and completion orders, failures at every point, aborts, throwing callbacks, per-step overrides) is replayed with a registered OpenTelemetry provider; after every environment action the spans started and ended so far are compared with the model, at the end also status, exceptions, attributes and nesting',
  expectCounters: ['spans:step', 'spans:tool'],
  jobs: ({ tier, S }) => {
    const big = tier === 'thorough'
    const limit = big ? 15000 : 700
    const tel = ['telEmbed', 'telEmbedMany', 'telGenerateText', 'telStreamText']
    const facets = ['spans', 'status', 'attrs']
    const variants = [{ flavour: 'tgen' }, { flavour: 'tstream' }]
    return [
      httpJob('calls', tel, ['net', 'netsync', 'redirect', 'client', 'retryable', 'server', 'badnobody', 'badcut', 'nobody', 'notstream', 'cut', 'notjson', 'blank', 'nochoices', 'errormsg', 'good', 'goodother'], {}, { otel: true, facets, renders: big ? 150 : 20, expectCounters: { 'span:json:ok': 20, 'span:json:failed': 20 } }),
      httpJob('calls-pairs', tel, ['net', 'client', 'notjson', 'good'], { MaxCalls: 2 }, { otel: true, facets, limit: big ? undefined : 800 }),
      toolJob('tool-outcomes', { Names: S('known', 'unknown'), Args: S('object', 'array', 'scalar', 'blank', 'bad'), Vals: S('absent', 'accept', 'transform', 'reject', 'throw'), Outs: S('string', 'object', 'throw', 'throwtext') }, { otel: true, facets, variants, renders: big ? 20 : 3 }),
      toolJob('tool-hooks', { Names: S('known', 'unknown'), Vals: S('absent', 'transform', 'reject'), Outs: S('string', 'throw'), Pres: S('none', 'both', 'args', 'name', 'unknown', 'throw', 'answer'), Posts: S('none', 'replace', 'throw') }, { otel: true, facets, variants, renders: big ? 20 : 2 }),
      ...[['gen', 'gen'], ['gen', 'stream'], ['stream', 'stream']].map(([A, B]) => pairJob(A, B, big ? 6000 : 150, { StepCbs: T('ok', 'throw'), FinCbs: T('ok') }, { facets, otel: true, expectCounters: { 'spans:step': 100, 'spans:tool': 50 } })),
    ].concat(['gen', 'stream'].flatMap(Api => [
      spanJob(`${Api}-tools`, { Api, MaxSteps: 2, CallCounts: T(0, 1, 2, ...(big ? [3] : [])), CallKinds: T('exec', 'unknown', 'badargs'), ToolOuts: T('ok', 'throw'), StopAns: T('no', 'yes'), Usages: usagesOf(Api) }, { limit }),
      spanJob(`${Api}-failures`, { Api, MaxSteps: 2, CallCounts: T(0, 1), ToolOuts: T('ok', 'throw'), StopAns: T('no', 'throw'), Preps: T('none', 'throw'), StepCbs: T('ok', 'throw'), FinCbs: T('ok', 'throw'), Mids: Api === 'stream', WaitFails: T('net', 'http', 'empty', 'badjson', ...(Api === 'gen' ? ['nochoices'] : [])), MidFails: T('cut', 'badjson', 'srverr') }, { limit }),
      spanJob(`${Api}-aborts`, { Api, MaxSteps: 2, CallCounts: T(0, 1, 2), CallKinds: T('exec', 'unknown'), ToolOuts: T('ok', 'throw'), StopAns: T('no', 'abort'), Preps: T('none', 'abort'), StepCbs: T('ok', 'abort'), Mids: Api === 'stream', AbortAt: T('start', 'wait', 'mid', 'tools'), Fetches: T('honour', 'ignore') }, { limit }),
      spanJob(`${Api}-overrides`, { Api, MaxSteps: 3, CallCounts: T(0, 1), StopAns: T('no'), Preps: T('none', 'all', 'model', 'input', 'leak'), Usages: usagesOf(Api) }, { limit: big ? 5000 : 400 }),
      ...(Api === 'stream' ? [spanJob('stream-events', { Api, MaxSteps: 2, CallCounts: T(0, 1), StopAns: T('no'), EvThrows: T(1, 3, 6, 7, 8, 9, 11), Mids: true }, { limit: big ? 5000 : 300 })] : []),
    ]))
  },
}
