import { stepJobs } from './C08.mjs'
import { APIS, both, chatJob, deep, S, usagesOf, wild } from '../lib/chatjobs.mjs'

const facets = ['usage']
export default {
  id: 'C07',
  rule: 'every assignment of usage reports (none, one, several) to the steps of runs of up to three (thorough: four) steps; step records, step-done events, results and totals are compared with the reported numbers',
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return [...stepJobs({ S, big, facets }).filter(j => ['ends', 'mixed'].includes(j.name)), ...APIS.flatMap(Api => [
      chatJob(`reports-${Api}`, { Api, MaxSteps: big ? 4 : 3, CallCounts: S(0, 1), StopAns: S('no', 'yes'), Usages: usagesOf(Api), ToolOuts: S('ok', 'throw') }, { facets, variants: both(Api), renders: Api === 'gen' ? 5 : 1, limit: big ? undefined : 1500 }),
      wild(Api, big ? 8000 : 500, { facets, variants: both(Api) }),
      deep(Api, big ? 2000 : 40, { facets, variants: both(Api) }, {}),
    ]), chatJob('ends-resp', { Api: 'resp', MaxSteps: 3, CallCounts: S(0, 1), StopAns: S('no'), Ends: S('done', 'failed', 'incomplete'), Usages: usagesOf('resp') }, { facets, limit: big ? undefined : 600 })]
  },
}
