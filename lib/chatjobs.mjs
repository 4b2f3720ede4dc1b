// Instances of the ChatLoop specification.
export const S = (...xs) => ({ set: xs })
export const INV = ['TypeOK', 'HistoryInv', 'HistoryEnd', 'ToolHistory', 'ContinueInv', 'OneRequestPerStep', 'OneStopPerStep', 'StepsOnce', 'BarrierInv', 'ResultsInOrder', 'FinishOnce', 'EndOnce', 'GrammarInv']

export const base = {
  Api: 'gen', MaxSteps: 2, CallCounts: S(0, 1), CallKinds: S('exec'), ToolOuts: S('ok'), StopAns: S('yes', 'no'), Preps: S('absent'),
  StepCbs: S('ok'), FinCbs: S('ok'), Usages: S('one'), Texts: S('text'), Reasons: S('no'), Mids: false, WaitFails: S(), MidFails: S(),
  Ends: S('done'), AbortAt: S(), Fetches: S('honour'), MaxCancels: 0, EvThrows: S(0), Sim: false,
}

export const chatJob = (name, consts, more = {}) => ({
  name,
  spec: 'ChatLoop',
  consts: { ...base, ...consts },
  invariants: INV,
  properties: ['AbortInv'],
  driver: 'chat',
  ...more,
})

/** the plain loop and its instrumented copy */
export const both = Api => (Api === 'resp' ? undefined : [{ flavour: Api }, { flavour: `t${Api}` }])
export const APIS = ['gen', 'stream', 'resp']
/** usage reports that an API can make */
export const usagesOf = Api => ({ gen: S('one'), stream: S('none', 'one', 'two'), resp: S('none', 'one') })[Api]
export const STREAMING = ['finish', 'promises', 'streams', 'error', 'unhandled', 'text', 'full', 'reason', 'events', 'onevent']

/**
 * Random walks through a configuration in which everything may happen; the depth of an exhaustive search is out of
 * reach there.
 */
export const wild = (Api, num, more = {}, consts = {}) => chatJob(`wild-${Api}`, {
  Api,
  MaxSteps: 4,
  CallCounts: S(0, 1, 2, 3),
  CallKinds: S('exec', 'unknown', 'badargs'),
  ToolOuts: S('ok', 'throw'),
  StopAns: S('no', 'yes'),
  Preps: S('none', 'model', 'tool', 'input', 'all', 'mutate', 'leak'),
  Usages: usagesOf(Api),
  Texts: S('text', 'none'),
  Reasons: S('yes', 'no'),
  Mids: Api !== 'gen',
  Sim: true,
  ...consts,
}, { simulate: { num, depth: 60 }, workers: 1, invariants: INV.filter(x => x !== 'GrammarInv'), name: `wild-${Api}`, ...more })

/** Runs of many steps: counters and indexes with two digits, long histories. */
export const deep = (Api, num, more = {}, consts = {}) => chatJob(`deep-${Api}`, {
  Api, MaxSteps: 12, CallCounts: S(0, 1, 2), CallKinds: S('exec', 'unknown'), StopAns: S('no'), Texts: S('text', 'none'), Reasons: S('yes', 'no'), Usages: usagesOf(Api), Sim: true, ...consts,
}, { simulate: { num, depth: 200 }, workers: 1, invariants: INV.filter(x => x !== 'GrammarInv'), properties: [], name: `deep-${Api}`, ...more })

/** Responses with many calls, which finish in any order. */
export const broad = (Api, num, more = {}, consts = {}) => chatJob(`broad-${Api}`, {
  Api, MaxSteps: 2, CallCounts: S(0, 12, 24), CallKinds: S('exec', 'unknown'), ToolOuts: S('ok', 'throw'), StopAns: S('no'), Texts: S('none'), Sim: true, ...consts,
}, { simulate: { num, depth: 120 }, workers: 1, invariants: INV.filter(x => x !== 'GrammarInv'), properties: [], name: `broad-${Api}`, ...more })

/** Executions recorded while the environment acts at arbitrary moments, checked against ChatTrace. */
export const traceJob = (Api, runs, facets, { scenario = {}, consts = {}, ...more } = {}) => {
  const sc = { aborts: [0, 0, 0, 0.01, 0.04], cancels: 0.2, counts: [0, 1, 2, 3], fails: true, finish: true, maxSteps: 4, prep: true, rare: true, step: true, ...scenario }
  return {
    name: `recorded-${Api}`,
    driver: 'chattrace',
    runs,
    variants: both(Api) ?? [{ flavour: Api }],
    facets: [...facets, 'trace'],
    scenario: sc,
    traceSpec: {
      spec: 'ChatTrace',
      specification: 'SpecT',
      consts: {
        ...base,
        Api, MaxSteps: sc.maxSteps,
        CallCounts: S(...sc.counts), CallKinds: S('exec', 'unknown', 'badargs'), ToolOuts: S('ok', 'throw'),
        StopAns: S('yes', 'no', 'throw', 'abort'),
        Preps: sc.prep ? S('none', 'model', 'input', 'throw', 'abort') : S('absent'),
        StepCbs: sc.step ? S('ok', 'throw', 'abort') : S('absent'),
        FinCbs: sc.finish ? S('ok', 'throw') : S('absent'),
        Usages: S('one', 'none'), Texts: S('text', 'none'), Reasons: S('yes', 'no'), Ends: S('done', 'failed', 'incomplete'),
        WaitFails: S('net', 'http', 'empty', 'nochoices', 'badjson', 'srverr', 'cut'),
        AbortAt: S('start'), Fetches: S('honour', 'ignore'),
        ...consts,
      },
      invariants: ['TypeOK', 'HistoryInv', 'HistoryEnd', 'ContinueInv', 'ResultsInOrder', 'NoBarrier', 'OneRequestPerStep', 'OneStopPerStep', 'Accepted'],
      view: 'TraceView',
    },
    ...more,
  }
}
