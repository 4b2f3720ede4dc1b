import { chatJob, S as T } from '../lib/chatjobs.mjs'

export const respJob = (name, consts, more) => ({
  name,
  spec: 'RespStep',
  consts: { MaxEvents: 3, Plain: { set: [] }, Calls: 0, CallEvs: { set: [] }, Ends: { set: ['completed'] }, Stops: { set: ['no'] }, Usages: { set: ['yes'] }, Sim: false, ...consts },
  invariants: ['Projection', 'EventOrder', 'CallGrammar', 'ResultPerCall', 'DoneLast'],
  driver: 'respstep',
  ...more,
})
const TEXT = ['created', 'part.output_text', 'part.text', 'part.refusal', 'part.other', 'part.done', 'text.delta', 'text.done', 'refusal.delta', 'refusal.done', 'annotation']
const REASON = ['reasoning.added', 'reasoning.delta', 'reasoning.done', 'summary.delta', 'summary.done', 'summary.part.added', 'summary.part.done']
const ITEMS = ['item.message', 'item.reasoning', 'item.compaction', 'item.other', 'null.done', 'null.added', 'message.added']
const OTHER = ['queued', 'progress', 'unknown']
export const respJobs = ({ big, S, facets }) => [
  respJob('events', { MaxEvents: big ? 3 : 2, Plain: S(...TEXT, ...REASON, ...OTHER, ...ITEMS), Ends: S('completed', 'failed') }, { facets, limit: big ? 20000 : undefined }),
  respJob('items', { MaxEvents: big ? 5 : 4, Plain: S('item.message', 'item.other', 'null.done'), Calls: 2, CallEvs: S('done'), Stops: S('yes', 'no'), Ends: S('completed', 'failed', 'incomplete') }, { facets, limit: big ? 20000 : 900 }),
  respJob('calls', { MaxEvents: big ? 7 : 6, Calls: 2, CallEvs: S('added', 'delta', 'argsdone', 'done') }, { facets, limit: big ? 20000 : 900 }),
  respJob('ends', { MaxEvents: 2, Plain: S('text.delta', 'item.message'), Calls: 1, CallEvs: S('done'), Ends: S('completed', 'failed', 'incomplete', 'srverr', 'cut'), Stops: S('yes', 'no'), Usages: S('yes', 'no') }, { facets, renders: 2 }),
  respJob('mixed', { MaxEvents: 14, Plain: S(...TEXT, ...REASON, ...OTHER, ...ITEMS), Calls: 3, CallEvs: S('added', 'delta', 'argsdone', 'done'), Ends: S('completed', 'failed', 'incomplete', 'srverr', 'cut'), Stops: S('yes', 'no'), Usages: S('yes', 'no'), Sim: true }, { facets, simulate: { num: big ? 6000 : 250, depth: 20 }, workers: 1 }),
]
const facets = ['full', 'text', 'reason', 'events', 'onevent', 'step', 'tools', 'req', 'stop', 'input', 'usage', 'results', 'result', 'messages']
export default {
  id: 'C21',
  rule: 'every sequence of Responses server events within the bounds (all event kinds in pairs or triples; all orders of completed items; all interleavings of the events of two calls; all ways to end) and random sequences of fourteen events over the whole alphabet; after every event all four streams and the callback are compared with the model, at the end the step, the executed calls, the second request and the resulting input; multi-step runs of ChatLoop with completed, failed and incomplete responses',
  expectCounters: ['runs', 'end:failed', 'end:incomplete', 'end:srverr', 'end:cut', 'calls:2'],
  jobs: ({ tier, S }) => {
    const big = tier === 'thorough'
    return [
      ...respJobs({ S, big, facets }),
      chatJob('steps', { Api: 'resp', MaxSteps: big ? 3 : 2, CallCounts: T(0, 1, 2), Texts: T('text', 'none'), Reasons: T('yes', 'no'), Mids: false, StopAns: T('no'), Ends: T('done', 'failed', 'incomplete'), Usages: T('one', 'none') }, { facets: [...facets, 'request'], variants: [{ flavour: 'resp' }], limit: big ? 20000 : 900 }),
    ]
  },
}
