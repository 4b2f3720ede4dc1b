import { chatJob, deep, S, traceJob } from '../lib/chatjobs.mjs'

const facets = ['req', 'stop', 'step', 'tools', 'result', 'outcome', 'promises']
const flav = Api => (Api === 'resp' ? undefined : [{ flavour: Api }, { flavour: `t${Api}` }])
export default {
  id: 'C01',
  rule: 'every maximal behaviour of ChatLoop within the constants; each contains at least one request, and the three-step ones two continuations; random walks of twelve steps; plus executions recorded while server, tools and caller act at arbitrary moments, each of which the specification must be able to follow',
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    const jobs = []
    for (const Api of ['gen', 'stream', 'resp']) {
      jobs.push(chatJob(`continue-${Api}`, { Api, MaxSteps: big ? 4 : 3, CallCounts: big ? S(0, 1) : S(0, 1, 2), CallKinds: S('exec', 'unknown'), Texts: big ? S('text') : S('text', 'none') }, { facets, variants: flav(Api), limit: big ? undefined : 2600 }))
      jobs.push(chatJob(`default-stop-${Api}`, { Api, MaxSteps: 1, CallCounts: S(0, 1, 2, 3), CallKinds: S('exec', 'noname', 'badargs'), StopAns: S('default'), Reasons: S('yes', 'no'), Texts: S('text', 'none') }, { facets, renders: 3, variants: flav(Api) }))
      // aborts, failures and hooks interleaved with the decision
      jobs.push(chatJob(`abort-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 1), StopAns: S('yes', 'no', 'abort'), StepCbs: S('ok', 'abort'), Preps: S('none', 'abort'), AbortAt: S('start', 'wait', 'tools') }, { facets, variants: flav(Api) }))
      jobs.push(chatJob(`fails-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 1), StopAns: S('yes', 'no', 'throw'), StepCbs: S('ok', 'throw'), WaitFails: S('net', 'http') }, { facets, variants: flav(Api) }))
      jobs.push(deep(Api, big ? 2000 : 40, { facets, variants: flav(Api) }))
      // the environment acts at arbitrary moments
      jobs.push(traceJob(Api, big ? 5000 : 250, facets))
    }
    return jobs
  },
}
