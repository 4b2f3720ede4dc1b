import { APIS, chatJob, S as T, usagesOf } from '../lib/chatjobs.mjs'

const set = (...xs) => ({ set: xs })
const job = (name, consts, more) => ({
  name,
  spec: 'Retry',
  consts: { Retries: set(-1), Delays: set(-1), CodeSets: set('default'), Reactions: set('ok', 'retryable', 'other', 'net'), MaxCalls: 1, MaxAttempts: 9, Sim: false, ...consts },
  invariants: ['Bounded', 'LastResort', 'FirstOther', 'Counted'],
  constraint: 'Bound',
  driver: 'retry',
  facets: ['attempts', 'answer', 'request'],
  ...more,
})
export default {
  id: 'C16',
  rule: 'every sequence of answers for one call under every configuration of retries, delay and codes; two calls in flight in every interleaving of answers and waits; random histories of up to four calls; under a virtual clock; ChatLoop runs whose requests are sent by a retrying fetch to a server that refuses up to three attempts of each',
  exhaustive: true,
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return [
      job('one', { CodeSets: set('default', 'custom'), Delays: set(-1, 0, 1, 40), Retries: set(-1, 0, 1, 2, 5) }, { renders: big ? 20 : 3 }),
      job('long', { Delays: set(0, 7), MaxAttempts: 1010, Reactions: set('retryable'), Retries: set(9, 10, 14, 33, 70), Sim: true }, { simulate: { depth: 220, num: big ? 200 : 30 }, workers: 1 }),
      // no limit at all
      job('endless', { Delays: set(0, 7), MaxAttempts: 1010, Reactions: set('retryable', 'ok', 'other'), Retries: set(1000), Sim: true }, { simulate: { depth: 60, num: big ? 400 : 60 }, workers: 1 }),
      job('two', { Delays: set(30), MaxCalls: 2, Retries: set(0, 1, 2) }, { limit: big ? 40000 : 2500 }),
      job('many', { CodeSets: set('default', 'custom'), Delays: set(-1, 0, 25), MaxCalls: 4, Reactions: set('ok', 'retryable'), Retries: set(-1, 2, 4), Sim: true }, { simulate: { depth: 60, num: big ? 6000 : 400 }, workers: 1 }),
      // runs whose fetch retries: the run does not notice that the server was busy
      ...APIS.map(Api => chatJob(`run-${Api}`, { Api, MaxSteps: 3, CallCounts: Api === 'stream' ? T(0, 2) : T(0, 1, 2), CallKinds: Api === 'gen' ? T('exec', 'unknown') : T('exec'), StopAns: T('no'), Usages: usagesOf(Api), WaitFails: T('net') }, { expectCounters: { retried: 20 }, facets: ['req', 'request', 'abort', 'outcome', 'messages', 'result', 'steps'], limit: big ? 12000 : 250, retrying: true })),
    ]
  },
}
