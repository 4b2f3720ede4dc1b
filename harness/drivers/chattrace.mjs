// Records executions of generateText / streamText / responses in an environment that acts at arbitrary moments; the
// traces are checked against specs/ChatTrace.tla. What the outputs deliver is compared here.
import * as gt from 'repo:packages/generate-text'
import * as stx from 'repo:packages/stream-text'
import * as rsp from 'repo:packages-ext/responses'
import * as tel from 'repo:packages-ext/telemetry'
import { APICallError, InvalidResponseError, JSONParseError, RemoteAPIError } from 'repo:packages/shared'
import { bytesOf, collect, controlledBody, deferred, eq, jsonResponse, settle, show, splitBytes, sseEvent, streamResponse, tick, watchPromise } from '../core.mjs'
import { Render } from '../chatrender.mjs'
import { diffHistory, matchResult } from './chat.mjs'

const STREAMS = { event: 'eventStream', full: 'fullStream', reason: 'reasoningTextStream', text: 'textStream' }

export const run = async (_, ctx) => {
  const r = ctx.rng
  const flavour = ctx.variant.flavour
  const api = flavour.startsWith('t') ? flavour.slice(1) : flavour
  const streaming = api !== 'gen'
  const c = ctx.job.scenario
  const R = new Render(api, r, { uniqueIds: true })
  for (const k of Object.keys(R.err)) R.err[k] = new Error(`${k} failed`)
  R.abortReason = r.pick([new Error('user abort'), new DOMException('gone', 'AbortError'), 'plain reason'])
  const honour = r.bool(0.6)
  const log = []
  const controller = new AbortController()
  let over = false // the run has settled

  const gap = async () => {
    const k = r.pick([0, 0, 1, 2, 3, 5, 8, 13, 21, 40])
    for (let i = 0; i < k; i++) await null
    if (r.bool(0.25)) await tick()
  }
  const noted = f => (r.bool() ? async (...a) => { const x = f(...a); await gap(); if (x instanceof Function) return x(); return x } : (...a) => { const x = f(...a); return x instanceof Function ? x() : x })
  const abort = () => {
    if (!controller.signal.aborted) controller.abort(R.abortReason)
  }
  const usual = (common, rare, p = 0.03) => (rare.length > 0 && r.bool(p) ? r.pick(rare) : r.pick(common))

  // ------------------------------------------------------------ concrete -> abstract
  const abstract = (actual, what) => {
    const bad = (d) => { ctx.diff('messages', `${what}: ${d}`); return undefined }
    if (!Array.isArray(actual)) return bad(`history is ${show(actual)}`)
    const user = R.history([])
    const d0 = diffHistory(api, actual.slice(0, user.length), user)
    if (d0) return bad(d0)
    const out = []
    let at = user.length
    const same = (entries, w) => diffHistory(api, [{}, ...entries], [{}, ...w])
    for (let s = 1; at < actual.length; s++) {
      if (!R.steps.has(s)) return bad(`surplus entry ${at}: ${show(actual[at])}`)
      const w = R.history([{ r: 'a', s }]).slice(user.length)
      const d = same(actual.slice(at, at + w.length), w)
      if (d) return bad(`turn of step ${s}: ${d}`)
      out.push({ r: 'a', s }); at += w.length
      const calls = R.steps.get(s).calls
      while (at < actual.length && (actual[at].role === 'tool' || actual[at].type === 'function_call_output')) {
        const id = actual[at].tool_call_id ?? actual[at].call_id
        const i = calls.findIndex(x => x.id === id) + 1
        if (i === 0) return bad(`entry ${at} answers no call of step ${s}: ${show(actual[at])}`)
        const kinds = calls[i - 1].kind === 'exec' ? ['aborted', 'ok', 'throw'] : ['aborted', calls[i - 1].kind]
        const o = kinds.find(o => !same([actual[at]], [{ $tool: R.result(calls[i - 1], o) }]))
        if (!o) return bad(`entry ${at} is no possible result of call ${id}: ${show(actual[at])}`)
        out.push({ i, out: o, r: 't', s }); at++
      }
    }
    return out
  }
  const entry = (o, history, what) => {
    if (history !== undefined) {
      const m = abstract(history, what)
      if (m) o.msgs = m
    }
    log.push(o)
  }
  const code = (e) => {
    for (const k of ['net', 'prep', 'stop', 'stepcb', 'fincb', 'cut']) if (e === R.err[k]) return k
    if (e === R.abortReason) return 'abort'
    if (APICallError.isInstance(e) && e.statusCode === 429) return 'http'
    if (InvalidResponseError.isInstance(e)) return e.reason === 'empty_body' ? 'empty' : 'nochoices'
    if (JSONParseError.isInstance(e)) return 'badjson'
    if (RemoteAPIError.isInstance(e)) return 'srverr'
    ctx.diff('error', `the run failed with ${show(e)}, which nothing that happened explains`)
    return 'other'
  }

  // ------------------------------------------------------------ server
  let reqNo = 0
  let pending // { n, d } unanswered request
  let body // { n, b, pieces, last }
  const fetchImpl = async (url, init) => {
    const n = ++reqNo
    let sent
    try { sent = JSON.parse(init.body) } catch (e) { ctx.diff('messages', `request ${n} has no JSON body`) }
    if (pending || body) ctx.diff('req', `request ${n} is sent while another one is unanswered`)
    const own = prepared.get(n)
    entry({ n, o: 'req' }, own ? undefined : sent?.[api === 'resp' ? 'input' : 'messages'], `request ${n}`)
    if (own && !eq(sent?.[api === 'resp' ? 'input' : 'messages'], own)) ctx.diff('prep', `request ${n} does not carry the prepared input`)
    if (init.signal?.aborted) throw init.signal.reason
    if (init.signal !== controller.signal) ctx.diff('abort', `request ${n} does not carry the caller's abort signal`)
    if (over) { ctx.diff('req', `request ${n} is sent after the end of the run`); throw new Error('over') }
    const d = deferred()
    pending = { d, n }
    if (honour) {
      init.signal.addEventListener('abort', () => {
        if (pending?.n === n) { pending = undefined; d.reject(init.signal.reason) }
        if (body?.n === n) { body.b.error(init.signal.reason); body = undefined }
      })
    }
    return d.promise
  }
  const response = (n) => {
    const k = r.pick(c.counts)
    const end = api === 'resp' && r.bool(0.08) ? r.pick(['failed', 'incomplete']) : 'done'
    const kk = end === 'done' ? k : Math.min(k, 1)
    const g = r.pick(['yes', 'no'])
    return { end, g, k: kk, kinds: Array.from({ length: kk }, () => usual(['exec'], ['unknown', 'badargs'], 0.2)), u: api === 'gen' ? 'one' : usual(['one'], ['none'], 0.2), x: api === 'resp' && kk === 0 && g === 'no' ? 'text' : r.pick(['text', 'none']) } // a turn without items cannot be seen in the history
  }
  const bytes = parts => bytesOf(parts.map(x => sseEvent(JSON.stringify(x), r)).join(''))
  const answerRequest = () => {
    const { d, n } = pending
    pending = undefined
    const fails = streaming ? ['net', 'http', 'empty', 'badjson', 'srverr', 'cut'] : ['net', 'http', 'nochoices', 'badjson']
    const f = c.fails && r.bool(0.07) ? r.pick(fails) : undefined
    if (f && !['srverr', 'cut'].includes(f) && !(f === 'badjson' && streaming)) {
      log.push({ e: 'fail', f, n })
      if (f === 'net') d.reject(R.err.net)
      else if (f === 'http') d.resolve(new Response('slow down', { status: 429 }))
      else if (f === 'empty') d.resolve(new Response(null))
      else if (f === 'badjson') d.resolve(new Response('{"broken":'))
      else d.resolve(jsonResponse({ choices: [], usage: { completion_tokens: 0, prompt_tokens: 0, total_tokens: 0 } }))
      return
    }
    const rec = response(n)
    const st = R.step(n, rec)
    if (!streaming) { log.push({ e: 'respond', n, r: rec }); d.resolve(jsonResponse(st.body)); return }
    const b = controlledBody()
    const reply = f === 'badjson' || f === 'srverr'
    const all = splitBytes(bytes(reply ? st.parts[1] : [...st.parts[1], ...st.parts[2]]), r)
    const closing = [...(api === 'resp' ? [bytes(st.parts[3])] : []), ...(r.bool(0.8) ? [bytesOf(sseEvent('[DONE]', r))] : [])]
    body = { b, closing, f, n, pieces: f === 'cut' ? all.slice(0, r.int(all.length)) : all, rec }
    d.resolve(streamResponse(b.stream))
  }
  const advanceBody = () => {
    const x = body
    if (x.pieces.length > 0) { x.b.push(x.pieces.shift()); return }
    body = undefined
    if (!x.f) {
      log.push({ e: 'respond', n: x.n, r: x.rec })
      for (const p of x.closing) x.b.push(p)
      x.b.close()
      return
    }
    log.push({ e: 'fail', f: x.f, n: x.n })
    if (x.f === 'cut') x.b.error(R.err.cut)
    else {
      x.b.push(bytesOf(sseEvent(x.f === 'badjson' ? '{"broken":' : '{"error":{"message":"boom"}}', r)))
      x.b.close()
    }
  }

  // ------------------------------------------------------------ the run
  const running = new Map()
  let ran = 0
  const prepared = new Map()
  const tools = R.toolNames.map(name => ({
    execute: (_input, o) => {
      let at
      for (const [s, st] of R.steps) for (const [i, x] of st.calls.entries()) if (x.id === o.toolCallId) at = [s, i + 1, x]
      if (!at) { ctx.diff('tools', `a tool is executed for ${show(o.toolCallId)}, which was never called`); return 'x' }
      entry({ i: at[1], n: at[0], o: 'tool' }, api === 'resp' ? undefined : structuredClone(o.messages), `messages given to ${o.toolCallId}`)
      ran++
      const d = deferred()
      running.set(o.toolCallId, { at, d })
      return d.promise
    },
    function: { description: name, name, parameters: { properties: {}, type: 'object' } },
    type: 'function',
    ...(r.bool() ? { validate: async (value) => { await gap(); return { value } } } : {}),
  }))
  const options = {
    abortSignal: controller.signal, baseURL: 'http://api.test/v1/', fetch: fetchImpl, model: 'm', tools,
    [api === 'resp' ? 'input' : 'messages']: structuredClone(R.user),
    stopWhen: (x) => {
      const n = x.steps.length
      const ans = n >= c.maxSteps && R.steps.get(n)?.calls.length > 0 ? 'yes' : usual(['no'], ['yes', ...(c.rare ? ['throw', 'abort'] : [])], 0.1)
      entry({ ans, n, o: 'stop', steps: n }, structuredClone(x.input), `input of stop condition ${n}`)
      if (ans === 'throw') throw R.err.stop
      if (ans === 'abort') abort()
      return ans === 'yes'
    },
    ...(c.prep
      ? {
          prepareStep: noted((x) => {
            const n = x.stepNumber + 1
            const ans = usual(['none', 'model', 'input'], c.rare ? ['throw', 'abort'] : [])
            entry({ ans, n, o: 'prep', steps: x.steps.length }, structuredClone(x.input), `input of prepareStep ${n}`)
            if (ans === 'abort') abort()
            if (ans === 'throw') return () => { throw R.err.prep }
            if (ans === 'input') { prepared.set(n, [{ content: `prepared ${n}`, role: 'user', ...(api === 'resp' ? { type: 'message' } : {}) }]); return { input: structuredClone(prepared.get(n)) } }
            return ans === 'model' ? { model: `m${n}` } : undefined
          }),
        }
      : {}),
    ...(c.step
      ? {
          onStepFinish: (api === 'gen' ? noted : f => (...a) => { const x = f(...a); return x instanceof Function ? x() : x })((step) => {
            stepsSeen.push(structuredClone(step))
            const ans = usual(['ok'], c.rare ? ['throw', 'abort'] : [])
            log.push({ ans, n: stepsSeen.length, o: 'step' })
            if (ans === 'abort') abort()
            if (ans === 'throw') return () => { throw R.err.stepcb }
          }),
        }
      : {}),
    ...(streaming && c.finish
      ? {
          onFinish: noted(() => {
            const ans = usual(['ok'], c.rare ? ['throw'] : [], 0.1)
            log.push({ ans, o: 'finish' })
            if (ans === 'throw') return () => { throw R.err.fincb }
          }),
        }
      : {}),
    ...(flavour.startsWith('t') ? { telemetry: { attributes: {} } } : {}),
  }
  const stepsSeen = []
  const realFetch = globalThis.fetch
  globalThis.fetch = () => { throw new Error('global fetch used') }

  const start = { gen: () => gt.generateText(options), resp: () => rsp.responses(options), stream: () => stx.streamText(options), tgen: () => tel.generateText(options), tstream: () => tel.streamText(options) }[flavour]
  const pre = r.bool(c.rare ? 0.04 : 0)
  if (pre) controller.abort(R.abortReason)
  log.push({ e: 'start', pre })
  const result = start()
  const watched = {}
  const collectors = {}
  const names = streaming ? [api === 'resp' ? 'input' : 'messages', 'steps', 'usage', 'totalUsage'] : ['run']
  for (const p of names) watched[p] = watchPromise(streaming ? result[p] : result)
  const cancels = new Set(streaming && r.bool(c.cancels) ? r.shuffle(Object.keys(STREAMS)).slice(0, 1 + r.int(3)) : [])
  // most streams are read from the beginning
  const late = new Set(streaming ? Object.keys(STREAMS).filter(() => r.bool(0.25)) : [])
  if (streaming) for (const s of Object.keys(STREAMS)) if (!late.has(s)) collectors[s] = collect(result[STREAMS[s]])
  const settled = () => Object.values(watched).every(w => w.state !== 'pending') && Object.values(collectors).every(x => x.state !== 'open')

  const abortChance = r.pick(c.aborts)
  let idle = 0
  while (!settled()) {
    const acts = []
    if (pending) acts.push(answerRequest)
    if (body) acts.push(advanceBody, advanceBody)
    if (running.size > 0) {
      acts.push(() => {
        const [id, { at: [n, i, x], d }] = r.pick([...running])
        running.delete(id)
        const out = usual(['ok'], ['throw'], 0.2)
        log.push({ e: 'tool', i, n, out })
        if (out === 'ok') d.resolve(x.returns)
        else d.reject(x.throws)
      })
    }
    const moved = acts.length > 0
    if (!controller.signal.aborted && r.bool(abortChance)) {
      acts.length = 0
      acts.push(() => { log.push({ e: 'abort' }); abort() })
    }
    if (acts.length > 0) r.pick(acts)()
    if (cancels.size > 0 && r.bool(0.1)) { const [s] = cancels; cancels.delete(s); collectors[s] ??= collect(result[STREAMS[s]]); if (collectors[s].state === 'open') { collectors[s].cancel().catch(() => {}); ctx.count('cancelled') } }
    if (late.size > 0 && r.bool(0.05)) { const [s] = late; late.delete(s); collectors[s] ??= collect(result[STREAMS[s]]) }
    await gap()
    if (moved) idle = 0
    else { await tick(); if (++idle > 400) break }
  }
  const ended = settled()
  over = true
  if (streaming) for (const s of Object.keys(STREAMS)) collectors[s] ??= collect(result[STREAMS[s]])
  await settle(3)
  globalThis.fetch = realFetch

  const finish = () => {
    if (!ended) {
      ctx.diff('outcome', `the run does not end; last seen ${show(log.slice(-6))}`)
      pending?.d.reject(new Error('over')); body?.b.close()
      for (const { d } of running.values()) d.resolve('late')
      return
    }
    if (pending || body || running.size > 0) ctx.diff('tools', `the run ended while ${running.size > 0 ? 'a tool was running' : 'a request was unanswered'}`)
    const states = Object.entries(watched)
    const failed = states.some(([, w]) => w.state === 'rejected')
    const e = states.find(([, w]) => w.state === 'rejected')?.[1].error
    for (const [p, w] of states) if ((w.state === 'rejected') !== failed || (failed && w.error !== e)) ctx.diff('promises', `promise ${p} is ${w.state} ${show(w.error)}, others differ`)
    const err = failed ? code(e) : ''
    for (const [s, x] of Object.entries(collectors)) {
      if (x.state === 'cancelled') continue
      if (x.state !== (failed ? 'errored' : 'closed')) ctx.diff('streams', `the ${s} stream ended as ${x.state}, the run ${failed ? 'failed' : 'succeeded'}`)
      else if (failed && x.error !== e) ctx.diff('streams', `the ${s} stream failed with ${show(x.error)}, the run with ${show(e)}`)
    }
    ctx.count(`end:${err || 'ok'}`)
    ctx.count('tools', ran)
    if (failed) { log.push({ err, o: 'end' }); return }
    const value = streaming ? Object.fromEntries(names.map(p => [p, watched[p].value])) : watched.run.value
    entry({ err, o: 'end', steps: value.steps.length }, value[api === 'resp' ? 'input' : 'messages'], 'the returned history')
    // the steps of the result
    for (const [k, step] of value.steps.entries()) {
      const st = R.steps.get(k + 1)
      if (!st) { ctx.diff('step', `surplus step ${k + 1}`); continue }
      if (!R.textOk(st, step.text)) ctx.diff('step', `step ${k + 1}: text ${show(step.text)}, expected ${show(st.text)}`)
      if (!eq(step.toolCalls, st.calls.map(x => R.toolCall(x)))) ctx.diff('step', `step ${k + 1}: toolCalls ${show(step.toolCalls)}`)
      if (!eq(step.usage ?? undefined, R.usageOut(st.usage))) ctx.diff('usage', `step ${k + 1}: usage ${show(step.usage)}, expected ${show(R.usageOut(st.usage))}`)
      for (const [i, res] of step.toolResults.entries()) {
        const x = st.calls[i]
        if (!x || !(x.kind === 'exec' ? ['aborted', 'ok', 'throw'] : ['aborted', x.kind]).some(o => matchResult(res, R.result(x, o)))) ctx.diff('results', `step ${k + 1}: result ${i} is ${show(res)}`)
      }
    }
    if (c.step && !eq(stepsSeen.length, value.steps.length)) ctx.diff('step', `${stepsSeen.length} steps were announced, ${value.steps.length} returned`)
    const sum = value.steps.map(s => s.usage).filter(Boolean).reduce((a, u) => ({ inputTokens: a.inputTokens + u.inputTokens, outputTokens: a.outputTokens + u.outputTokens, totalTokens: a.totalTokens + u.totalTokens }), { inputTokens: 0, outputTokens: 0, totalTokens: 0 })
    if (value.totalUsage != null && !eq(value.totalUsage, sum)) ctx.diff('usage', `total usage ${show(value.totalUsage)}, expected ${show(sum)}`)
  }
  finish()
  if (streaming) {
    // what the text and reasoning streams delivered: everything if the run succeeded, a beginning of it otherwise
    const want = { reason: [], text: [] }
    for (const st of R.steps.values()) {
      if (st.reason != null) want.reason.push(st.reason)
      if (st.rec.x === 'text') want.text.push(st.t1, st.t2)
    }
    const ok = Object.values(watched).every(w => w.state === 'resolved')
    for (const s of ['text', 'reason']) {
      const x = collectors[s]
      if (!(ok && x.state === 'closed' ? eq(x.items, want[s]) : x.items.length <= want[s].length && x.items.every((v, i) => v === want[s][i])))
        ctx.diff(s, `the ${s} stream delivered ${show(x.items)}, expected ${ok ? '' : 'a beginning of '}${show(want[s])}`)
    }
    const x = collectors.full
    if (ok && x.state === 'closed') {
      const parts = [...R.steps.values()].flatMap(st => [...st.parts[1], ...st.parts[2], ...(st.parts[3] ?? [])])
      if (!eq(x.items, parts)) ctx.diff('full', `the full stream delivered ${show(x.items)}, expected ${show(parts)}`)
    }
  }
  await settle(2)
  if (ctx.unhandled.length > 0) { ctx.diff('unhandled', `unhandled rejection: ${show(ctx.unhandled[0])} after ${JSON.stringify(log.slice(-6).map(x => ({ ...x, msgs: undefined })))}`, ctx.unhandled[0]?.stack); ctx.unhandled.length = 0 }
  ctx.trace({ fetch: honour ? 'honour' : 'ignore', flavour, t: log })
  return { flavour, trace: log.slice(0, 40) }
}
