import { chatJob, S as T } from '../lib/chatjobs.mjs'
import { stepJobs } from './C08.mjs'

const facets = ['events', 'onevent']
export default {
  id: 'C09',
  rule: 'as for C08 (event sequences after every chunk), and every ChatLoop behaviour within the constants, with text, reasoning and up to two tool calls per step, for chat and Responses; the event stream and the event callback are compared with the model, whose grammar is an invariant',
  jobs: ({ tier, S }) => {
    const big = tier === 'thorough'
    return [
      ...stepJobs({ S, big, facets }),
      ...['stream', 'resp'].flatMap(Api => [
        chatJob(`steps-${Api}`, { Api, MaxSteps: big ? 3 : 2, CallCounts: T(0, 1, 2), Texts: T('text', 'none'), Reasons: T('yes', 'no'), Mids: true, StopAns: T('no', 'yes') }, { facets, limit: big ? 30000 : 1200 }),
        chatJob(`long-${Api}`, { Api, MaxSteps: 3, CallCounts: T(0, 1), Reasons: T('yes', 'no'), StopAns: T('no') }, { facets }),
        chatJob(`tools-${Api}`, { Api, MaxSteps: 2, CallCounts: T(0, 2), CallKinds: T('exec', 'unknown', 'badargs'), ToolOuts: T('ok', 'throw'), StopAns: T('no') }, { facets, limit: big ? undefined : 600 }),
      ]),
    ]
  },
}
