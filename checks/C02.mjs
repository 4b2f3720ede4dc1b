import { APIS, both, chatJob, deep, S, traceJob, wild } from '../lib/chatjobs.mjs'

const facets = ['messages', 'input', 'results']
const AGAIN = { again: true, expectCounters: { again: 20 } }
export default {
  id: 'C02',
  rule: 'every maximal behaviour of ChatLoop within the constants, plus random walks of up to four steps; every request body and every returned history is compared entry by entry with the causal history of the model; finished conversations are continued: the history of a run and one more message make the beginning of the next one; plus recorded executions whose requests, hooks and tools are all given histories that the specification can follow',
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return APIS.flatMap(Api => [
      chatJob(`kinds-${Api}`, { Api, CallCounts: S(0, 1, 2), CallKinds: S('exec', 'unknown', 'badargs'), ToolOuts: S('ok', 'throw'), Reasons: S('yes', 'no'), Texts: S('text', 'none'), StopAns: S('no') }, { facets, variants: both(Api), limit: big ? 30000 : 1200 }),
      chatJob(`three-${Api}`, { Api, MaxSteps: 3, CallCounts: S(0, 1, 2), ToolOuts: S('ok', 'throw'), StopAns: S('no', 'yes') }, { facets, variants: both(Api), limit: big ? 20000 : 900, ...AGAIN }),
      chatJob(`prepared-${Api}`, { Api, MaxSteps: 3, CallCounts: S(0, 1), StopAns: S('no'), Preps: S('none', 'input', 'leak', 'mutate') }, { facets, variants: both(Api), renders: big ? 6 : 1 }),
      wild(Api, big ? 12000 : 700, { facets, variants: both(Api), ...AGAIN }),
      deep(Api, big ? 2000 : 40, { facets, variants: both(Api) }, { Preps: S('none', 'input') }),
      traceJob(Api, big ? 5000 : 250, facets),
    ])
  },
}
