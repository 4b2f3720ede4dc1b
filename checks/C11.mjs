import { chatJob, S, STREAMING, traceJob, wild } from '../lib/chatjobs.mjs'

const facets = [...STREAMING, 'req', 'tools', 'step', 'messages', 'results']
export default {
  id: 'C11',
  rule: 'every choice of up to two output streams and of the quiescent points at which the consumer cancels them, in runs of two steps with tools; the outputs left are read at once, late or not until the end; plus recorded executions with cancellations at arbitrary moments',
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return ['stream', 'resp'].flatMap((Api) => {
      const all = Api === 'resp' ? [{ flavour: Api }, { flavour: Api, lazy: true, partial: true }] : [{ flavour: Api }, { flavour: Api, lazy: true, partial: true }, { flavour: 'tstream', lazy: true }]
      return [
        chatJob(`one-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 1), StopAns: S('no', 'yes'), Reasons: S('yes'), Mids: true, MaxCancels: 1 }, { facets, variants: all }),
        chatJob(`two-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 1), StopAns: S('no'), Reasons: S('yes', 'no'), Mids: true, MaxCancels: 2 }, { facets, variants: all, limit: big ? undefined : 900 }),
        chatJob(`all-${Api}`, { Api, MaxSteps: 1, CallCounts: S(1), StopAns: S('abort', 'yes'), Reasons: S('yes'), Mids: true, MaxCancels: 4 }, { facets, variants: all, limit: big ? undefined : 500 }),
        chatJob(`fails-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 1), StopAns: S('no'), Reasons: S('yes'), Mids: true, MaxCancels: 1, MidFails: S('cut', 'badjson'), WaitFails: S('net') }, { facets, variants: all, limit: big ? undefined : 500 }),
        chatJob(`burst-${Api}`, { Api, MaxSteps: 2, CallCounts: S(0, 1), StopAns: S('no'), Reasons: S('yes'), Mids: true, MaxCancels: 1 }, { burst: 100, facets, variants: all, limit: big ? undefined : 200 }),
        wild(Api, big ? 8000 : 400, { facets, variants: all }, { MaxCancels: 3, Preps: S('absent') }),
        traceJob(Api, big ? 5000 : 250, facets, { scenario: { cancels: 0.9, prep: false, rare: false } }),
      ]
    })
  },
}
