import { APIS, both, chatJob, deep, S, wild } from '../lib/chatjobs.mjs'

const facets = ['prep', 'req', 'messages', 'error']
export default {
  id: 'C06',
  rule: 'every sequence of answers of the preparation hook over up to three (thorough: four) steps, including modifying what it was given, modifying later what it returned, throwing and aborting',
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return APIS.flatMap(Api => [
      chatJob(`answers-${Api}`, { Api, MaxSteps: big ? 4 : 3, CallCounts: S(0, 1), StopAns: S('no'), Preps: S('none', 'model', 'tool', 'input', 'all', 'mutate', 'leak') }, { facets, variants: both(Api), limit: big ? undefined : 1100 }),
      chatJob(`throws-${Api}`, { Api, MaxSteps: 3, CallCounts: S(0, 1), StopAns: S('no', 'yes'), Preps: S('none', 'all', 'throw', 'abort') }, { facets, variants: both(Api) }),
      wild(Api, big ? 8000 : 400, { facets, variants: both(Api) }),
      deep(Api, big ? 2000 : 40, { facets, variants: both(Api) }, { Preps: S('none', 'model', 'tool', 'input', 'all', 'mutate', 'leak') }),
    ])
  },
}
