import { APIS, both, broad, chatJob, S, traceJob, wild } from '../lib/chatjobs.mjs'

const facets = ['tools', 'results', 'req', 'messages', 'events', 'step']
export default {
  id: 'C05',
  rule: 'every order in which two or three tool calls of a response can finish, with successes, failures and calls that never run, crossed with the next step; plus random walks with up to four calls per response, and with 12 and 24; plus recorded executions whose tools finish at arbitrary moments, also before others have started',
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return APIS.flatMap(Api => [
      chatJob(`orders-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 2, 3), CallKinds: S('exec'), ToolOuts: S('ok', 'throw'), StopAns: S('no'), Texts: S('none'), AbortAt: S('tools') }, { facets, variants: both(Api), limit: big ? undefined : 600 }),
      chatJob(`next-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 3), CallKinds: S('exec', 'badargs'), ToolOuts: S('ok', 'throw'), StopAns: S('no'), Texts: S('none') }, { facets, variants: both(Api), limit: big ? undefined : 1200 }),
      chatJob(`two-${Api}`, { Api, MaxSteps: 3, CallCounts: S(0, 2), ToolOuts: S('ok', 'throw'), StopAns: S('no'), Texts: S('none') }, { facets, variants: both(Api), limit: big ? undefined : 1000 }),
      wild(Api, big ? 12000 : 500, { facets, variants: both(Api) }, { CallCounts: S(0, 2, 3, 4), Preps: S('absent'), StopAns: S('no'), Reasons: S('no') }),
      broad(Api, big ? 2000 : 60, { facets, variants: both(Api) }),
      traceJob(Api, big ? 6000 : 250, facets, { scenario: { aborts: [0, 0, 0.02], counts: [0, 2, 3, 4], fails: false, prep: false } }),
    ])
  },
}
