import { toolJob } from './C03.mjs'
import { APIS, both, chatJob, S, traceJob, wild } from '../lib/chatjobs.mjs'

const facets = ['req', 'tools', 'abort', 'results', 'step', 'error', 'messages']
export default {
  id: 'C12',
  rule: 'an abort at every quiescent point (before the start, while waiting for the answer, in the middle of it, while tools run) in every callback of runs of two steps, and inside every stage of a tool call (hooks, validation, execution), with a fetch that honours the signal and one that ignores it; plus recorded executions aborted at arbitrary moments, down to single microtasks',
  assumptions: ['a response body that has arrived completely is not affected by a later abort'],
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return [
      toolJob('tool', { Names: S('known', 'unknown'), Args: S('object', 'bad'), Vals: S('absent', 'accept', 'transform', 'reject', 'throw'), Outs: S('object', 'throw'), AbortAt: S('start', 'validate', 'exec') }, { facets: ['exec', 'result', 'error'], renders: big ? 12 : 2 }),
      toolJob('tool-hooks', { Args: S('object'), Vals: S('absent', 'accept'), Outs: S('object', 'throw'), Pres: S('none', 'both', 'throw', 'answer'), Posts: S('none', 'replace'), AbortAt: S('start', 'pre', 'validate', 'exec', 'post') }, { facets: ['exec', 'result', 'error', 'hooks'], renders: big ? 12 : 1 }),
      ...APIS.flatMap((Api) => {
      const Mids = Api !== 'gen'
      return [
        chatJob(`points-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 1, 2), CallKinds: S('exec', 'unknown'), StopAns: S('no', 'yes'), ToolOuts: S('ok', 'throw'), Mids, AbortAt: S('start', 'wait', 'mid', 'tools'), Fetches: S('honour', 'ignore') }, { facets, variants: both(Api), limit: big ? 40000 : 1500 }),
        chatJob(`hooks-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 1, 2), CallKinds: S('exec', 'badargs'), StopAns: S('no', 'abort'), Preps: S('none', 'abort'), StepCbs: S('ok', 'abort') }, { facets, variants: both(Api), limit: big ? undefined : 900 }),
        wild(Api, big ? 10000 : 500, { facets, variants: both(Api) }, { AbortAt: S('start', 'wait', 'mid', 'tools'), Fetches: S('honour', 'ignore'), StopAns: S('no', 'abort'), StepCbs: S('ok', 'abort'), Preps: S('none', 'abort') }),
        traceJob(Api, big ? 6000 : 300, facets, { scenario: { aborts: [0.02, 0.05, 0.1], fails: false } }),
      ]
    }),
    ]
  },
}
