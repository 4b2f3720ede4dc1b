import { both, chatJob, S, STREAMING, traceJob, wild } from '../lib/chatjobs.mjs'

const facets = STREAMING
export default {
  id: 'C10',
  rule: 'every way a streaming run can end (success, each failure kind at each point of each step, each callback throwing, the event callback throwing at every one of its calls), with all outputs, some outputs or none observed; plus recorded executions with failures, aborts and cancellations at arbitrary moments',
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return ['stream', 'resp'].flatMap((Api) => {
      const plain = [{ flavour: Api }, { flavour: Api, lazy: true, partial: true }]
      const all = Api === 'resp' ? plain : [...plain, { flavour: 'tstream' }, { flavour: 'tstream', lazy: true, partial: true }]
      return [
        chatJob(`server-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 1), StopAns: S('no'), Texts: S('text'), Reasons: S('yes', 'no'), Mids: true, WaitFails: S('net', 'http', 'empty', 'badjson'), MidFails: S('badjson', 'srverr', 'cut') }, { facets, variants: all, renders: big ? 8 : 1, limit: big ? undefined : 700 }),
        chatJob(`hooks-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 1), CallKinds: S('exec', 'noname'), StopAns: S('yes', 'no', 'throw'), Preps: S('none', 'throw'), StepCbs: S('ok', 'throw'), FinCbs: S('ok', 'throw') }, { facets, variants: all, renders: big ? 8 : 2 }),
        chatJob(`events-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 1), StopAns: S('no'), Texts: S('text'), Reasons: S('yes'), EvThrows: { tla: '1..24' }, FinCbs: S('ok', 'throw') }, { facets, variants: all, renders: big ? 8 : 2 }),
        chatJob(`aborts-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 1), StopAns: S('no', 'abort'), Preps: S('none', 'abort'), StepCbs: S('ok', 'abort'), Mids: true, AbortAt: S('start', 'wait', 'mid', 'tools'), Fetches: S('honour', 'ignore') }, { facets, variants: all, limit: big ? undefined : 700 }),
        chatJob(`burst-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 1), StopAns: S('no'), Mids: true, WaitFails: S('net'), MidFails: S('cut', 'srverr'), FinCbs: S('ok', 'throw') }, { burst: 150, facets, variants: all, limit: big ? undefined : 150 }),
        wild(Api, big ? 8000 : 500, { facets, variants: all }, { WaitFails: S('net', 'badjson'), MidFails: S('badjson', 'cut', 'srverr'), FinCbs: S('ok', 'throw'), Preps: S('none', 'throw'), StopAns: S('no', 'throw'), StepCbs: S('ok', 'throw'), EvThrows: { tla: '{0, 3, 9, 17, 26, 40}' } }),
        traceJob(Api, big ? 5000 : 250, facets),
      ]
    })
  },
}
