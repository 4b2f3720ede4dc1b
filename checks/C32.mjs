import { toolJob } from './C03.mjs'
import { stepJob } from './C08.mjs'
import { sseJob } from './C13.mjs'
import { elementsJob } from './C19.mjs'
import { structuredJob } from './C20.mjs'
import { respJob } from './C21.mjs'
import { audioJob } from './C25.mjs'
import { imagesJob } from './C26.mjs'
import { base, INV, S, usagesOf } from '../lib/chatjobs.mjs'

export const pairJob = (A, B, num, consts = {}, more = {}) => {
  const { Api: _a, Usages: _u, MidFails: _m, ...rest } = base
  return {
    name: `at-once-${A}-${B}`,
    spec: 'Runs',
    consts: {
      ...rest,
      ApiA: A, ApiB: B, UsagesA: usagesOf(A), UsagesB: usagesOf(B),
      MaxSteps: 3, CallCounts: S(0, 1, 2), CallKinds: S('exec', 'unknown', 'badargs'), ToolOuts: S('ok', 'throw'), StopAns: S('no', 'yes'),
      Preps: S('none', 'model', 'tool', 'input', 'all'), StepCbs: S('ok'), FinCbs: S('ok'), Texts: S('text', 'none'), Reasons: S('yes', 'no'),
      Mids: true, MidFailsA: S(), MidFailsB: S(), Sim: true,
      ...consts,
    },
    invariants: ['HistoryInv', 'HistoryEnd', 'ContinueInv', 'OneRequestPerStep', 'OneStopPerStep', 'StepsOnce', 'FinishOnce', 'EndOnce', 'OrderInv', 'OneChatSpan', 'OnePerTool', 'Nested', 'AllEnded'],
    simulate: { num, depth: 120 },
    workers: 1,
    driver: 'runs',
    ...more,
  }
}

const TROUBLE = {
  CallKinds: S('exec', 'unknown'), Preps: S('none', 'input', 'throw', 'abort'), StepCbs: S('ok', 'throw', 'abort'), FinCbs: S('ok', 'throw'),
  WaitFails: S('net', 'http', 'empty', 'badjson'), AbortAt: S('start', 'wait', 'mid', 'tools'), Fetches: S('honour', 'ignore'), MaxCancels: 2,
}
const MIDS = S('badjson', 'srverr', 'cut')

export default {
  id: 'C32',
  technique: 'TLA+ specification (asynchronous product of two instances of the run\'s machine) model checked with TLC; every behaviour replayed into the real code, two runs in lock-step',
  rule: 'two runs of the functions over every pairing of their kinds, their environment actions interleaved in every order of the bounds (random walks of the product machine), half of them with failures, throwing hooks and aborts in either; and three at a time of the finer machines (streamed steps, event sequences, tool calls, event streams, streamed objects, structured answers, audio, images), each progressing as it can; every observation compared with what the run must show alone',
  expectCounters: ['switches:6'],
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    const n = big ? 8000 : 250
    const pairs = [['gen', 'gen'], ['stream', 'stream'], ['resp', 'resp'], ['gen', 'stream'], ['stream', 'resp']]
    return [
      ...pairs.map(([A, B]) => pairJob(A, B, n, {}, { expectCounters: { 'switches:6': 50 } })),
      ...pairs.slice(1).map(([A, B]) => pairJob(A, B, n, { ...TROUBLE, MidFailsA: A === 'gen' ? S() : MIDS, MidFailsB: MIDS }, { name: `trouble-${A}-${B}`, expectCounters: { 'pair:ok+failed': 10, 'pair:failed+ok': 10, 'pair:failed+failed': 10 } })),
      // the finer machines, three of a kind at once, each progressing as it can
      stepJob('chunks', { MaxChunks: 9, Contents: S('none', 'text', 'empty', 'null', 'refusal'), Reasonings: S('none', 'text', 'null'), Indices: S(0, 1, 2), Pieces: S('piece', 'empty', 'absent'), MaxFrags: 2, Finishes: S('none', 'a', 'b'), Usages: S('none', 'a', 'b'), Sim: true }, { together: 3, simulate: { num: big ? 6000 : 300, depth: 15 }, workers: 1 }),
      respJob('events', { MaxEvents: 12, Plain: S('created', 'part.output_text', 'text.delta', 'text.done', 'reasoning.added', 'reasoning.delta', 'reasoning.done', 'item.message', 'item.reasoning'), Calls: 3, CallEvs: S('added', 'delta', 'argsdone', 'done'), Ends: S('completed', 'failed', 'cut'), Stops: S('yes', 'no'), Usages: S('yes', 'no'), Sim: true }, { together: 3, simulate: { num: big ? 6000 : 200, depth: 20 }, workers: 1 }),
      toolJob('tools', { Names: S('known', 'unknown'), Args: S('object', 'bad'), Vals: S('absent', 'transform', 'reject'), Outs: S('string', 'throw'), Pres: S('none', 'both', 'throw', 'answer'), Posts: S('none', 'replace') }, { together: 3, limit: big ? undefined : 300 }),
      sseJob('messages', { MaxLines: 14, Kinds: S('blank', 'ok', 'half1', 'half2', 'mention', 'done', 'comment', 'field'), Sim: true }, { together: 3, simulate: { num: big ? 3000 : 150, depth: 20 }, workers: 1 }),
      elementsJob('objects', { MaxTokens: 30, MaxDepth: 6, Sim: true }, { distinct: true, together: 3, simulate: { depth: 60, num: big ? 6000 : 300 }, workers: 1 }),
      structuredJob('structured', { Answers: S('elements', 'value'), Fns: S('gen', 'stream'), MaxElements: 2, Opts: S('none', 'both'), Stricts: S('absent', 'false') }, { together: 3, limit: big ? undefined : 300 }),
      ...['speech', 'transcription'].map(K => audioJob('audio', K, { Cancels: S('full', 'text'), Cuts: true, Events: S('delta', 'blank', 'done', 'usage', 'unknown', 'badjson'), MaxEvents: 10, Sim: true }, { together: 3, simulate: { depth: 20, num: big ? 4000 : 200 }, workers: 1, properties: [] })),
      imagesJob('images', { Heads: S('ok', 'http'), Bodies: S('ok', 'cut'), Aborts: S('load'), MaxImages: 5, Sim: true }, { together: 3, simulate: { depth: 24, num: big ? 4000 : 200 }, workers: 1, properties: [] }),
    ]
  },
}
