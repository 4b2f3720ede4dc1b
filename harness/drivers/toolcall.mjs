// Replays ToolCall behaviours through generateText / streamText / responses: the model's answer contains the call
// under test next to ordinary calls, and the step shows its result.
import * as gt from 'repo:packages/generate-text'
import * as stx from 'repo:packages/stream-text'
import * as rsp from 'repo:packages-ext/responses'
import * as tel from 'repo:packages-ext/telemetry'
import { InvalidToolCallError } from 'repo:packages/shared'
import { bytesOf, collect, eq, jsonResponse, settle, show, splitBytes, sseEvent, text } from '../core.mjs'
import { jsonValue, strangeName } from '../chatrender.mjs'
import { allSpans, attrs, exceptions, failedSpan, installTracing, resetSpans } from '../otel.mjs'

const PARTS = [{ text: 'part', type: 'text' }, { image_url: { url: 'https://img/x.png' }, type: 'image_url' }, { input_audio: { data: 'AA==', format: 'wav' }, type: 'input_audio' }, { file: { file_id: 'f1' }, type: 'file' }]
const RPARTS = [{ text: 'part', type: 'input_text' }, { image_url: 'https://img/x.png', type: 'input_image' }, { file_id: 'f1', type: 'input_file' }]

const argText = (r, kind, tag) => {
  const obj = { tag, v: jsonValue(r) }
  switch (kind) {
    case 'object': { const s = r.bool(0.3) ? JSON.stringify(obj, null, 2) : r.bool(0.3) ? `\n ${JSON.stringify(obj)} ` : JSON.stringify(obj); return [s, obj] }
    case 'array': { const a = [tag, jsonValue(r)]; return [JSON.stringify(a), a] }
    case 'scalar': { const v = r.pick([`${tag}`, 7, true, false, 0, '']); return [JSON.stringify(v), v] }
    case 'null': return ['null', null]
    case 'blank': return [r.pick(['', ' ', '\n\t ', '\r\n']), {}]
    case 'bad': return [r.pick(['{', '{"a":', 'not json', '{"a":1}}', '[1,', '{a:1}', '{"a":1},', '"']), undefined]
    case 'missing': return [undefined, undefined]
  }
}

export const setup = (job) => { if (job.otel) installTracing() }

export const run = async (b, ctx) => {
  resetSpans()
  const r = ctx.rng
  const flavour = ctx.variant.flavour
  const api = { gen: 'gen', resp: 'resp', stream: 'stream', tgen: 'gen', tstream: 'stream' }[flavour]
  const start = b.h[0]
  const ID = r.pick(['call_main', 'é1', '0', 'call_main '])
  const [t1, t2] = r.shuffle(['weather', 'wind', 'näme', 'w'])
  const unknownName = strangeName(r, [t1, t2])
  const missing = start.call.tool === 'missing'
  const noArgs = start.call.args === 'missing'
  // a streamed call without any argument piece has blank arguments
  if (noArgs && api === 'stream') return
  const tokens = { t1, t2, unknown: unknownName, unknown2: r.bool() ? 'rewritten-unknown' : strangeName(r, [t1, t2]) }
  const [origRaw, origVal] = argText(r, start.call.args, 'orig')
  const [newRaw, newVal] = argText(r, b.h.some(x => x.o === 'pre' && x.ans === 'badargs') ? 'bad' : 'object', 'new')
  const parsed = { o: origVal, w: newVal }
  const transformed = r.bool(0.5) ? { t: 'transformed', v: jsonValue(r) } : r.pick([null, undefined, 0, false, '', 'transformed', [], {}])
  const rawOf = c => (c.src === 'o' ? origRaw : newRaw)
  const valueOf = (c, v) => (v === 'raw' ? rawOf(c) : v === 'transformed' ? transformed : parsed[c.src])

  const controller = new AbortController()
  const reason = r.pick([undefined, new Error('user abort'), 'stop it'])
  const abort = () => controller.abort(reason)
  const log = []
  const script = b.h.slice(1)
  let pos = 0
  const step = (o, info) => {
    log.push({ o, ...info })
    const want = script[pos]
    if (want?.o !== o) { ctx.diff({ exec: 'exec', post: 'hooks', pre: 'hooks', validate: 'validate' }[o], `unexpected ${o} ${show(info)}; expected ${show(want)}`); return undefined }
    pos++
    if (want.ab) abort()
    return want
  }
  const later = async (f) => { if (r.bool()) await settle(1 + r.int(2)); return f() }
  const asyncOrNot = f => (r.bool() ? (...a) => f(...a) : (...a) => later(() => f(...a)))

  // ---------------------------------------------------------------- results
  const mk = out => {
    const P = api === 'resp' ? RPARTS : PARTS; const Q = api === 'resp' ? PARTS : RPARTS
    switch (out) {
      case 'string': { const s = text(r, 'out'); return [s, s] }
      case 'empty': return ['', '']
      case 'object': { const o = r.pick([{ v: jsonValue(r) }, {}, { type: 'text' }, new Date(0), null, 0, false, 17, true]); return [o, JSON.stringify(o)] }
      case 'array': { const a = r.pick([[1, 'two', null], [{ a: 1 }], ['text'], [null], [[]]]); return [a, JSON.stringify(a)] }
      case 'parts': { const a = Array.from({ length: 1 + r.int(3) }, () => r.pick(P)); return [a, a] }
      case 'foreign': { const a = [r.pick(Q)]; return [a, JSON.stringify(a)] }
      case 'mixed': { const a = r.shuffle([r.pick(P), r.pick([r.pick(Q), 'x', null, { type: 'other' }, 3])]); return [a, JSON.stringify(a)] }
    }
  }
  const hookResult = { args: { by: 'hook' }, ...(r.bool(0.3) ? { isError: r.bool() } : {}), result: r.pick(['hook says no', { hook: 1 }, null, '', 0, false, [0], undefined]), toolCallId: ID, toolName: 'hooked' }
  const postResult = { args: { by: 'post' }, ...(r.bool(0.3) ? { isError: r.bool() } : {}), result: r.pick(['post says', { post: 1 }, '', null, 0, false, ['x']]), toolCallId: ID, toolName: 'posted' }
  const wrapped = v => (typeof v === 'string' ? v : JSON.stringify(v))
  const causes = { pre: r.pick([new Error('pre exploded'), 'pre exploded']), post: r.pick([new Error('post exploded'), 'post exploded']), throw: r.pick([new Error('tool exploded'), new TypeError('tool exploded')]), throwtext: r.pick(['tool exploded', 'tool exploded']), validator: new Error('validator exploded') }
  const cancelable = f => f
  let okValue

  // ---------------------------------------------------------------- callbacks of the user
  const byMain = x => x.toolCallId === ID
  const siblings = []
  const options = {}
  const seenIds = { post: [], pre: [] }
  if (b.pres) {
    options.preToolCall = asyncOrNot((call, o) => {
      seenIds.pre.push(call.toolCallId)
      if (!byMain(call)) return r.bool() ? undefined : r.bool() ? null : call
      const want = step('pre', { call: structuredClone(call), id: o.toolCallId, signal: o.abortSignal })
      if (!want) return
      const c = structuredClone(call)
      switch (want.ans) {
        case 'none': return undefined
        case 'same': return r.bool() ? call : c
        case 'args': return { ...c, args: newRaw }
        case 'name': return { ...c, toolName: t2 }
        case 'both': return { ...c, args: newRaw, toolName: t2 }
        case 'unknown': return { ...c, toolName: tokens.unknown2 }
        case 'badargs': return { ...c, args: newRaw }
        case 'answer': return hookResult
        case 'throw': throw causes.pre
        case 'wrongcall': return { ...c, toolCallId: `${ID}x` }
        case 'wrongresult': return { ...hookResult, toolCallId: 'other' }
      }
    })
  }
  if (b.posts) {
    options.postToolCall = asyncOrNot((res, o) => {
      seenIds.post.push(res.toolCallId)
      if (!byMain(res)) return r.bool() ? undefined : res
      const want = step('post', { id: o.toolCallId, res: structuredClone(res), signal: o.abortSignal })
      if (!want) return
      switch (want.ans) {
        case 'none': return undefined
        case 'replace': return postResult
        case 'throw': throw causes.post
        case 'wrongid': return { ...postResult, toolCallId: 'other' }
      }
    })
  }
  const mainIds = new Set([ID])
  const makeTool = (name, token) => ({
    execute: asyncOrNot((input, o) => {
      if (!mainIds.has(o.toolCallId)) { siblings.push({ id: o.toolCallId, input, name }); return `sibling ${o.toolCallId}` }
      const want = step('exec', { id: o.toolCallId, input: structuredClone(input), name, signal: o.abortSignal })
      if (!want) return 'unexpected'
      if (want.ans === 'throw' || want.ans === 'throwtext') throw causes[want.ans]
      okValue = mk(want.ans)
      return okValue[0]
    }),
    function: { name, parameters: { properties: {}, type: 'object' } },
    type: 'function',
    ...(token === 't1' && start.call.vdt !== 'absent'
      ? {
          validate: (v) => {
            if (!eq(v, origVal) && !eq(v, newVal)) return { value: v } // a sibling's
            if (siblingVal !== undefined && eq(v, siblingVal)) return { value: v }
            const want = step('validate', { input: structuredClone(v), name })
            if (!want) return { value: v }
            const f = () => {
              switch (want.ans) {
                case 'accept': return { value: v }
                case 'transform': return { value: transformed }
                case 'reject': return { issues: [{ message: 'no good' }] }
                case 'throw': throw causes.validator
              }
            }
            return r.bool() ? f() : later(f)
          },
        }
      : {}),
  })
  const siblingVal = { sibling: true }
  const tools = r.bool() ? [makeTool(t1, 't1'), makeTool(t2, 't2')] : [makeTool(t2, 't2'), makeTool(t1, 't1')]
  // a second tool of the same name is never the one meant
  if (r.bool(0.3)) tools.push({ ...makeTool(t1, 'dup'), execute: () => { ctx.diff('exec', 'a later tool of the same name was executed'); return 'dup' } })
  const noTools = b.call.tool.startsWith('unknown') && r.bool(0.3)

  // ---------------------------------------------------------------- the calls of the model
  const main = { id: ID, name: missing ? undefined : tokens[start.call.tool], raw: noArgs ? undefined : origRaw }
  const sib = n => ({ id: `sib_${n}`, name: t2, raw: JSON.stringify(siblingVal) })
  const calls = [...(r.bool(0.4) ? [sib(1)] : []), main, ...(r.bool(0.4) ? [sib(2)] : [])]
  const usage = { completion_tokens: 1, prompt_tokens: 1, total_tokens: 2 }
  let requests = 0
  const second = { gen: () => jsonResponse({ choices: [{ finish_reason: 'stop', index: 0, message: { content: 'bye', role: 'assistant' } }], usage }) }
  const sse = events => new Response(new ReadableStream({ start: (c) => { for (const x of splitBytes(bytesOf(events.map(e => sseEvent(JSON.stringify(e), r)).join('') + sseEvent('[DONE]')), r)) c.enqueue(x); c.close() } }))
  const items = calls.map((c, i) => ({ arguments: c.raw, call_id: c.id, id: `fc_${i}`, name: c.name, status: 'completed', type: 'function_call' }))
  let secondBody
  options.fetch = async (_, init) => {
    if (++requests === 2) secondBody = JSON.parse(init.body)
    if (requests > 2) throw new Error('too many requests')
    const first = requests === 1
    if (api === 'gen') {
      return first
        ? jsonResponse({ choices: [{ finish_reason: 'tool_calls', index: 0, message: { content: '', role: 'assistant', tool_calls: calls.map(c => ({ function: { arguments: c.raw, name: c.name }, id: c.id, type: 'function' })) } }], usage })
        : second.gen()
    }
    if (api === 'stream') {
      // a streamed call has at least an empty argument text
      return first
        ? sse([...calls.map((c, i) => ({ choices: [{ delta: { tool_calls: [{ function: { arguments: c.raw, name: c.name }, id: c.id, index: i, type: 'function' }] }, index: 0 }] })), { choices: [{ delta: {}, finish_reason: 'tool_calls', index: 0 }], usage }])
        : sse([{ choices: [{ delta: { content: 'bye' }, finish_reason: 'stop', index: 0 }] }])
    }
    const done = { response: { id: 'r', output: first ? items : [], status: 'completed', usage: { input_tokens: 1, output_tokens: 1, total_tokens: 2 } }, type: 'response.completed' }
    return first ? sse([{ response: {}, type: 'response.created' }, ...items.map(item => ({ item, type: 'response.output_item.done' })), done]) : sse([done])
  }
  Object.assign(options, {
    abortSignal: controller.signal,
    baseURL: 'http://api.test/v1/',
    [api === 'resp' ? 'input' : 'messages']: [{ content: 'q', role: 'user', type: api === 'resp' ? 'message' : undefined }],
    model: 'm',
    stopWhen: ({ steps }) => { if (start.aborted) abort(); return steps.length > 1 },
    tools: noTools ? r.pick([undefined, []]) : tools,
  })
  if (flavour.startsWith('t')) options.telemetry = {}

  // ---------------------------------------------------------------- run
  const steps = []
  options.onStepFinish = (s) => { steps.push(structuredClone(s)) }
  let err; let failed = false
  const final = {}
  try {
    if (api === 'gen') {
      const res = await (flavour === 'tgen' ? tel : gt).generateText(options)
      final.history = res.messages
    }
    else {
      const res = api === 'resp' ? rsp.responses(options) : (flavour === 'tstream' ? tel : stx).streamText(options)
      const ev = collect(res.eventStream); const others = [res.fullStream, res.textStream, res.reasoningTextStream].map(collect)
      const ps = [res.steps, res.usage, res.totalUsage, api === 'resp' ? res.input : res.messages]
      for (const p of ps) p.catch(() => {})
      final.history = await ps[3]
      await Promise.all([ev, ...others].map(c => c.done))
      final.events = ev.items
    }
  }
  catch (e) { err = e; failed = true }
  await settle(2)

  // ---------------------------------------------------------------- judge
  if (pos < script.length) {
    const want = script[pos]
    ctx.diff({ exec: 'exec', post: 'hooks', pre: 'hooks', validate: 'validate' }[want.o], `${want.o} was not called; seen ${log.map(x => x.o)}`)
  }
  const history = b.h
  const callAt = new Map() // the call as seen by each observation
  for (const [i, x] of log.entries()) {
    const want = script[i]
    if (!want || want.o !== x.o) continue
    if (x.o === 'pre') {
      const w = { args: origRaw, toolCallId: ID, toolCallType: 'function', toolName: main.name }
      if (!eq(x.call, w)) ctx.diff('hooks', `preToolCall got ${show(x.call)}, expected ${show(w)}`)
      if (x.id !== ID) ctx.diff('hooks', `preToolCall got call id ${x.id}`)
    }
    if (x.o === 'validate' && !eq(x.input, parsed[want.src])) ctx.diff('validate', `validator got ${show(x.input)}, expected ${show(parsed[want.src])}`)
    if (x.o === 'exec') {
      const w = valueOf(want, want.val)
      if (x.name !== tokens[want.tool]) ctx.diff('exec', `tool ${x.name} executed, expected ${tokens[want.tool]}`)
      if (!eq(x.input, w)) ctx.diff('exec', `tool got ${show(x.input)}, expected ${show(w)}`)
      if (x.id !== ID) ctx.diff('exec', `tool got call id ${x.id}`)
      if (x.signal !== controller.signal) ctx.diff('exec', 'tool did not get the abort signal')
    }
    if (x.o === 'post') {
      checkRes(x.res, want.res, 'postToolCall', 'hooks')
      if (x.id !== ID) ctx.diff('hooks', `postToolCall got call id ${x.id}`)
    }
  }
  const others = calls.filter(c => c !== main)
  if (b.res.k === 'reject') {
    if (!failed) ctx.diff('outcome', `the run succeeded, expected a rejected tool call (${b.res.why})`)
    else if (!(InvalidToolCallError.isInstance(err) && err.reason === b.res.why && err.code === 'invalid_tool_call')) ctx.diff('error', `the run failed with ${show(err)}, expected an invalid tool call (${b.res.why})`)
  }
  else if (failed) ctx.diff('outcome', `the run failed with ${show(err)}${err?.stack}`)
  else {
    const at = calls.indexOf(main)
    const st = steps[0]
    if (st?.toolResults?.length !== calls.length) ctx.diff('outcome', `step has ${st?.toolResults?.length} results for ${calls.length} calls`)
    else {
      checkRes(st.toolResults[at], b.res, 'the result', 'result')
      const wc = { args: rawOf(b.call), toolCallId: ID, toolCallType: 'function', toolName: tokens[b.call.tool] }
      if (!eq(st.toolCalls[at], wc)) ctx.diff('calls', `the step's call is ${show(st.toolCalls[at])}, expected ${show(wc)}`)
      const h = api === 'resp' ? final.history.filter(m => m.type === 'function_call_output') : final.history.filter(m => m.role === 'tool')
      const msg = h[at]
      const content = api === 'resp' ? msg?.output : msg?.content
      const id = api === 'resp' ? msg?.call_id : msg?.tool_call_id
      if (h.length !== calls.length || id !== ID) ctx.diff('result', `history holds ${show(h)}`)
      else if (b.res.k === 'error') { if (content !== st.toolResults[at].result) ctx.diff('result', `history content ${show(content)} is not the result ${show(st.toolResults[at].result)}`) }
      else {
        const w = b.res.k === 'ok' ? okValue?.[1] : wrapped((b.res.k === 'hook' ? hookResult : postResult).result)
        if (!eq(content, w)) ctx.diff('result', `history content ${show(content)}, expected ${show(w)}`)
      }
      // the other calls of the same response
      for (const [i, c] of calls.entries()) {
        if (c === main) continue
        const res = st.toolResults[i]
        if (res?.toolCallId !== c.id) ctx.diff('result', `result ${i} is for ${show(res?.toolCallId)}, expected ${c.id}`)
        else if (!b.aborted && !noTools && res.result !== `sibling ${c.id}`) ctx.diff('result', `the call next to it got ${show(res)}`)
      }
    }
    if (final.events) {
      const rs = final.events.filter(e => e.type === 'tool-result.done')
      if (rs.length !== calls.length || rs[calls.indexOf(main)].toolCallId !== ID) ctx.diff('result', `result events ${show(rs)}`)
      else { const { type, ...rest } = rs[calls.indexOf(main)]; if (steps[0] && !eq(rest, steps[0].toolResults[calls.indexOf(main)])) ctx.diff('result', `result event ${show(rest)} differs from the step's result`) }
    }
  }
  // hooks of the other calls: once each
  if (b.pres && !failed) for (const c of calls) if (c !== main && seenIds.pre.filter(x => x === c.id).length !== 1) ctx.diff('hooks', `preToolCall was called ${seenIds.pre.filter(x => x === c.id).length} times for ${c.id}`)
  if (ctx.job.otel && flavour.startsWith('t')) {
    // a span for the call under test if and only if its execution was reached, under the name that was executed
    const spans = allSpans().filter(s => attrs(s)['gen_ai.operation.name'] === 'execute_tool')
    const own = spans.filter(s => attrs(s)['gen_ai.tool.call.id'] === ID)
    const ran = log.filter(x => x.o === 'exec')
    if (own.length !== ran.length) ctx.diff('spans', `${own.length} spans for ${ran.length} executions of the call`)
    else if (own.length === 1) {
      const a = attrs(own[0])
      if (a['gen_ai.tool.call.name'] !== ran[0].name) ctx.diff('attrs', `the span names ${a['gen_ai.tool.call.name']}, executed ${ran[0].name}`)
      if (!eq(a['gen_ai.tool.call.arguments'], JSON.stringify(ran[0].input))) ctx.diff('attrs', `the span has arguments ${show(a['gen_ai.tool.call.arguments'])}, executed with ${show(ran[0].input)}`)
      const threw = script.find(x => x.o === 'exec')?.ans?.startsWith('throw') ?? false
      if (failedSpan(own[0]) !== threw) ctx.diff('status', `the span has status ${show(own[0].span.status)}, the tool ${threw ? 'failed' : 'succeeded'}`)
      if (!threw && exceptions(own[0]).length) ctx.diff('status', 'the span of a successful tool records an exception')
      ctx.count(`span:${threw ? 'failed' : 'ok'}`)
    }
    for (const s of allSpans()) if (s.ends !== 1) ctx.diff('spans', `the span ${s.name} was ended ${s.ends} times`)
  }
  if (ctx.unhandled.length > 0) ctx.diff('outcome', `unhandled rejection ${show(ctx.unhandled[0])}`)
  ctx.count(`res:${b.res.k}${b.res.cause ? `:${b.res.cause}` : ''}`)
  return { behaviour: b.h, flavour, res: b.res }

  function checkRes(actual, want, what, facet) {
    const id = actual?.toolCallId
    if (id !== ID) { ctx.diff(facet, `${what} is for call ${show(id)}, expected ${ID}: ${show(actual)}`); return }
    if (want.k === 'hook' || want.k === 'posthook') {
      const w = want.k === 'hook' ? hookResult : postResult
      if (!eq(actual, w)) ctx.diff(facet, `${what} is ${show(actual)}, expected the hook's ${show(w)}`)
      return
    }
    const call = want.k === 'ok' || want.k === 'error' ? currentCall() : undefined
    const name = tokens[want.tool]
    if (actual.toolName !== name) ctx.diff(facet, `${what} names tool ${show(actual.toolName)}, expected ${show(name)}`)
    if (want.args !== 'raw' && !eq(actual.args, valueOf(call, want.args))) ctx.diff(facet, `${what} has args ${show(actual.args)}, expected ${show(valueOf(call, want.args))}`)
    if (want.k === 'ok') {
      if (actual.isError) ctx.diff(facet, `${what} is an error: ${show(actual)}`)
      else if (!eq(actual.result, structuredCloneSafe(okValue?.[0]))) ctx.diff(facet, `${what} is ${show(actual.result)}, expected ${show(okValue?.[0])}`)
      return
    }
    if (actual.isError !== true || typeof actual.result !== 'string') { ctx.diff(facet, `${what} is ${show(actual)}, expected an error result (${want.cause})`); return }
    if (!actual.result.includes(name)) ctx.diff(facet, `the error does not name the tool ${name}: ${show(actual.result)}`)
    const text = { aborted: 'aborted', post: 'post exploded', pre: 'pre exploded', throw: 'tool exploded', throwtext: 'tool exploded', validator: 'validator exploded' }[want.cause]
    if (text && !actual.result.includes(text)) ctx.diff(facet, `the error does not tell the cause (${text}): ${show(actual.result)}`)
  }
  function currentCall() { return b.call }
  function structuredCloneSafe(v) { try { return structuredClone(v) } catch { return v } }
}
