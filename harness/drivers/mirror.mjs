// Replays Mirror: the plain and the instrumented function run in front of the same environment; everything a user or
// a server can see of them is recorded and compared, and both are compared with the model.
import * as embed from 'repo:packages/embed'
import * as gt from 'repo:packages/generate-text'
import * as stx from 'repo:packages/stream-text'
import * as tel from 'repo:packages-ext/telemetry'
import { bytesOf, collect, jsonResponse, rng, settle, show, splitBytes, sseEvent, text, until, watchPromise } from '../core.mjs'
import { jsonValue } from '../chatrender.mjs'
import { allSpans, installTracing, resetSpans } from '../otel.mjs'

export const setup = (job) => { if (job.otel) installTracing() }

/** a printable picture of any value: cycles, functions, big integers and errors included; undefined members are absent */
const picture = (v, seen = []) => {
  if (typeof v === 'bigint') return `${v}n`
  if (typeof v === 'function') return '<function>'
  if (typeof v === 'symbol') return String(v)
  if (typeof v !== 'object' || v === null) return JSON.stringify(v) ?? 'undefined'
  const at = seen.indexOf(v)
  if (at >= 0) return `<up ${seen.length - at}>`
  if (v instanceof AbortSignal) return '<signal>'
  if (v instanceof Response) return `<response ${v.status}>`
  const next = [...seen, v]
  if (Array.isArray(v)) return `[${v.map(x => picture(x, next)).join(',')}]`
  const head = v instanceof Error ? `${v.constructor.name}(${v.name}: ${v.message})` : v instanceof Map ? `Map[${[...v].map(x => picture(x, next))}]` : v instanceof Date ? `Date(${+v})` : ''
  return `${head}{${Object.keys(v).filter(k => v[k] !== undefined && k !== 'stack').sort().map(k => `${JSON.stringify(k)}:${picture(v[k], next)}`).join(',')}}`
}

const cyclic = (tag) => { const o = { tag }; o.self = o; return o }
const odd = (r, kind, tag) => {
  switch (kind) {
    case 'plain': return { tag, v: jsonValue(r) }
    case 'string': return r.pick([`${tag} é`, '', '{"json":true}'])
    case 'parts': return [{ text: tag, type: 'text' }]
    case 'undef': return undefined
    case 'fn': return () => tag
    case 'null': return null
    case 'map': return r.pick([new Map([['a', 1]]), new Date(0), [undefined], new Set([1])])
    case 'bigint': return r.pick([10n, { n: 5n }, [1n]])
    case 'cyclic': return cyclic(tag)
    case 'tojson': return { toJSON: () => { throw new Error('no JSON for you') } }
  }
}

export const run = async (b, ctx) => {
  const r = ctx.rng
  const chat = b.op === 'gen' || b.op === 'stream'
  const names = ['weather', 'näme']
  const usageOf = u => chat
    ? { absent: undefined, full: { completion_tokens: r.int(99), prompt_tokens: r.int(99), total_tokens: r.int(99) }, null: null, partial: r.pick([{ prompt_tokens: 4 }, {}, { completion_tokens: 0 }]) }[u]
    : { absent: undefined, full: { prompt_tokens: r.int(99), total_tokens: r.int(99) }, null: null, partial: {} }[u]
  // ---------------------------------------------------------------- the environment, drawn once for both lanes
  const steps = b.script.map((a, k) => ({
    ...a,
    abortHere: false,
    calls: a.calls.map((c, i) => ({ ...c, async: r.bool(), args: JSON.stringify({ k, i, v: jsonValue(r) }), error: r.pick([new Error('boom'), new TypeError('boom')]), id: `call_${k}_${i}`, inVal: odd(r, c.in, `in${k}${i}`), name: b.given === 'some' || b.given === 'frozen' ? r.pick(names) : 'gone', oddThrow: r.pick([undefined, null, 'text', 7, { not: 'an error' }]), outVal: odd(r, c.out, `out${k}${i}`), repair: r.pick(['repaired', { repaired: 1 }, '']) })),
    embedding: [r.int(9), 0.5],
    finish: r.pick(['stop', 'tool_calls', 'length', undefined, null]),
    reasoning: r.bool(0.3) ? text(r, 'because') : undefined,
    status: r.pick([400, 401, 404, 429, 500, 503]),
    text: text(r, `t${k}`),
    usage: usageOf(a.u),
  }))
  const extra = Object.fromEntries(Object.entries({ frequencyPenalty: 0.1, maxTokens: 7, presencePenalty: -1, seed: 3, stop: r.pick(['a', ['a', 'b'], []]), temperature: 0, topK: 2, topP: 0.9, unknownOption: { innerKey: null } }).filter(() => r.bool(0.3)))
  if (!chat) for (const k of Object.keys(extra)) if (k !== 'unknownOption') delete extra[k]
  if (!chat && r.bool()) extra.dimensions = 4
  const messages = [{ content: text(r, 'q'), role: 'user' }, ...(r.bool(0.3) ? [{ content: [{ text: 'x', type: 'text' }], role: 'user' }] : [])]
  const input = b.op === 'embedMany' ? r.pick([['a', 'b'], ['a', 'a'], ['', 'a', 'a', ' a'], [], ['one']]) : r.pick(['one', ''])
  const base = r.pick(['http://api.test/v1/', 'https://api.test/v1', 'http://h:8080/a/b/'])
  const asURL = r.bool()
  const apiKey = r.pick([undefined, 'k'])
  const cbs = { ev: r.bool(0.7), fin: r.bool(0.7), pre: r.bool(), prep: r.bool(), step: r.bool(0.7) }
  const prepRet = r.pick([undefined, {}, { model: 'other' }, { toolChoice: 'required' }, { input: [{ content: 'new', role: 'user' }] }])
  const anyRepair = steps.some(s => s.calls.some(c => c.post === 'repair'))
  const telemetry = r.pick([undefined, {}, { attributes: {} }, { attributes: { user: 'me', deep: [1, 2] } }, { attributes: { 'gen_ai.request.model': 'mine' } }])
  const splitSeed = r.int(1e9)
  const streamOptions = r.pick([undefined, { includeUsage: true }])

  const lane = async (which) => {
    const fns = which === 'p' ? { embed: embed.embed, embedMany: embed.embedMany, gen: gt.generateText, stream: stx.streamText } : { embed: tel.embed, embedMany: tel.embedMany, gen: tel.generateText, stream: tel.streamText }
    const log = []; const perCall = {}
    const note = (what, ...xs) => log.push(`${what} ${xs.map(x => picture(x)).join(' ')}`)
    const noteCall = (id, what, ...xs) => { (perCall[id] ??= []).push(`${what} ${xs.map(x => picture(x)).join(' ')}`) }
    const counts = { exec: 0, req: 0, step: 0 }; const receivers = new Set()
    const byId = id => steps.flatMap(s => s.calls).find(c => c.id === id)
    const rs = rng(splitSeed)
    const options = {
      ...structuredClone(extra),
      ...(apiKey ? { apiKey } : {}),
      baseURL: asURL ? new URL(base) : base,
      fetch: async (url, init) => {
        const s = steps[counts.req++]
        note('request', String(url), Object.fromEntries(new Headers(init.headers)), init.method, JSON.parse(init.body), init.signal)
        if (!s) throw new Error('too many requests')
        if (s.sh === 'net') throw new TypeError('fetch failed')
        if (s.sh === 'http') return new Response('{"error":1}', { status: s.status })
        if (!chat) return jsonResponse({ data: (b.op === 'embed' ? [1] : input).map((_, index) => ({ embedding: s.embedding, index })), usage: s.usage })
        const calls = s.calls.map(c => ({ function: { arguments: c.args, name: c.name }, id: c.id, type: 'function' }))
        const content = { missing: undefined, null: null, parts: [{ text: s.text, type: 'text' }, { text: 'two', type: 'text' }], text: s.text }[s.sh]
        if (b.op === 'gen') {
          if (s.sh === 'nochoices') return jsonResponse({ choices: [], usage: s.usage })
          return jsonResponse({ choices: [{ finish_reason: s.finish, index: 0, ...(s.sh === 'nomessage' ? {} : { message: { content, role: 'assistant', ...(s.reasoning ? { reasoning: s.reasoning } : {}), ...(calls.length || rs.bool() ? { tool_calls: calls } : {}) } }) }], usage: s.usage })
        }
        const events = [
          ...(s.reasoning ? [{ choices: [{ delta: { reasoning_content: s.reasoning }, index: 0 }] }] : []),
          { choices: [{ delta: content === undefined ? {} : { content }, index: 0 }] },
          ...calls.map((c, index) => ({ choices: [{ delta: { tool_calls: [{ ...c, index }] }, index: 0 }] })),
          { choices: [{ delta: {}, finish_reason: s.finish, index: 0 }] },
          ...(s.usage === undefined ? [] : [{ choices: [], usage: s.usage }]),
        ]
        return new Response(new ReadableStream({ start: (c) => { for (const x of splitBytes(bytesOf(`${events.map(e => sseEvent(JSON.stringify(e), rs)).join('')}data: [DONE]\n\n`), rs)) c.enqueue(x); c.close() } }))
      },
      model: 'm',
    }
    if (chat) {
      options.messages = structuredClone(messages)
      options.stopWhen = (x) => { note('stopWhen', x); return x.steps.length >= ctx.job.consts.MaxSteps }
      if (streamOptions && b.op === 'stream') options.streamOptions = { ...streamOptions }
      if (cbs.prep) options.prepareStep = (x) => { note('prepareStep', x); return structuredClone(prepRet) }
      if (cbs.step) options.onStepFinish = (s) => { counts.step++; note('step', s) }
      else counts.step = undefined
      if (b.op === 'stream' && cbs.ev) options.onEvent = e => note('event', e)
      if (b.op === 'stream' && cbs.fin) options.onFinish = s => note('finish', s)
      if (cbs.pre) options.preToolCall = (c, o) => { noteCall(c.toolCallId, 'pre', c, { ...o, abortSignal: undefined }) }
      if (anyRepair || cbs.pre) options.postToolCall = (x, o) => { noteCall(x.toolCallId, 'post', x, o.messages); const c = byId(x.toolCallId); return c?.post === 'repair' ? { ...x, isError: false, result: c.repair } : undefined }
      const tools = names.map(name => ({
        execute(v, o) {
          if (this?.state === name) receivers.add('execute')
          const c = byId(o.toolCallId); counts.exec++
          noteCall(o.toolCallId, 'exec', name, v, o)
          if (v !== c.inVal && !Object.is(v, c.inVal)) noteCall(o.toolCallId, 'the input is not the validated value itself')
          if (c.out === 'throw') throw c.error
          if (c.out === 'throwodd') throw c.oddThrow
          return c.async ? settle(1).then(() => c.outVal) : c.outVal
        },
        function: { description: `tool ${name}`, name, parameters: { properties: {}, type: 'object' } },
        state: name,
        type: 'function',
        validate(v) { if (this?.state === name) receivers.add('validate'); const c = steps[v.k].calls[v.i]; noteCall(c.id, 'validate', name, v); return { value: c.inVal } },
      }))
      if (b.given === 'undefined') options.tools = undefined
      else if (b.given === 'empty') options.tools = []
      else if (b.given !== 'absent') options.tools = tools
    }
    else { options.input = structuredClone(input) }
    if (which === 't' && telemetry) options.telemetry = structuredClone(telemetry)
    if (b.given === 'frozen') { const f = (o) => { for (const v of Object.values(o)) if (typeof v === 'object' && v && !(v instanceof URL) && !Object.isFrozen(v)) { f(v) } return Object.freeze(o) }; f(options) }
    const before = picture({ ...options, baseURL: String(options.baseURL) }); const refs = { ...options }; const toolRefs = options.tools?.map(t => ({ ...t }))
    let out
    try { out = fns[b.op](options) }
    catch (e) { note('threw', e); return { end: 'fail', log, perCall } }
    let end
    if (b.op === 'stream') {
      const parts = {}
      for (const [k, v] of Object.entries(out)) parts[k] = v instanceof ReadableStream ? collect(v) : { done: watchPromise(v), promise: true }
      await until(() => Object.values(parts).every(p => (p.promise ? p.done.state !== 'pending' : p.state !== 'open')), { max: 400, extra: 1 })
      for (const [k, p] of Object.entries(parts)) note(k, p.promise ? { error: p.done.error, state: p.done.state, value: p.done.value } : { error: p.error, items: p.items, state: p.state })
      end = parts.steps.done.state === 'resolved' ? 'ok' : 'fail'
      counts.end = parts.steps.done.error
    }
    else {
      const w = watchPromise(out)
      await until(() => w.state !== 'pending', { max: 400, extra: 1 })
      note('result', w.state, w.state === 'resolved' ? w.value : w.error)
      end = w.state === 'resolved' ? 'ok' : w.state === 'pending' ? 'pending' : 'fail'
      counts.end = w.error
    }
    await settle(1)
    if (picture({ ...options, baseURL: String(options.baseURL) }) !== before || Object.keys(refs).some(k => options[k] !== refs[k]) || options.tools?.some((t, i) => Object.keys(t).some(k => t[k] !== toolRefs[i][k]))) ctx.diff('input', `the caller's options were changed by the ${which === 'p' ? 'plain' : 'instrumented'} function`)
    return { counts, end, log, perCall, receivers }
  }

  resetSpans()
  const p = await lane('p')
  if (allSpans().length > 0) ctx.diff('outcome', 'the plain function started a span')
  const t = await lane('t')
  const say = `${b.op}, tools ${b.given}`
  const limit = Math.max(p.log.length, t.log.length)
  for (let i = 0; i < limit; i++) if (p.log[i] !== t.log[i]) { ctx.diff('mirror', `${say}: observation ${i} of the instrumented function is ${show(t.log[i] ?? 'missing', 900)}, of the plain one ${show(p.log[i] ?? 'missing', 900)}`); break }
  for (const id of new Set([...Object.keys(p.perCall), ...Object.keys(t.perCall)])) {
    const [x, y] = [p.perCall[id] ?? [], t.perCall[id] ?? []]
    if (x.join('\n') !== y.join('\n')) ctx.diff('mirror', `${say}, call ${id}: instrumented ${show(y, 900)}, plain ${show(x, 900)}`)
  }
  // a tool that reads its own members can do so under instrumentation too
  for (const k of p.receivers ?? []) if (t.receivers && !t.receivers.has(k)) ctx.diff('mirror', `${say}: ${k} is called on its tool by the plain function only`)
  // both against the model
  for (const [name, l] of [['plain', p], ['instrumented', t]]) {
    if (l.end !== b.end) ctx.diff('model', `${say}: the ${name} function ended with ${l.end} (${show(l.counts?.end)}), the model with ${b.end}`)
    const reqs = b.vis.filter(x => x.o === 'req').length
    if (l.counts && l.counts.req !== reqs) ctx.diff('model', `${say}: ${l.counts.req} requests of the ${name} function, ${reqs} expected`)
    const tools = b.vis.filter(x => x.o === 'tools')
    if (l.counts?.step !== undefined && l.counts.step !== b.vis.filter(x => x.o === 'step').length && chat) ctx.diff('model', `${say}: ${l.counts.step} steps of the ${name} function, expected ${b.vis.filter(x => x.o === 'step').length}`)
    if (chat && b.end === 'ok') {
      const want = (b.given === 'some' || b.given === 'frozen') ? tools.reduce((n, x) => n + x.outs.length, 0) : 0
      if (l.counts && l.counts.exec !== want) ctx.diff('model', `${say}: ${l.counts.exec} executions of the ${name} function, expected ${want}`)
    }
  }
  if (ctx.unhandled.length > 0) ctx.diff('outcome', `unhandled rejection ${show(ctx.unhandled[0])}`)
  ctx.count(`op:${b.op}`); ctx.count(`end:${b.end}`)
  for (const a of b.attrs) for (const x of a) ctx.count(`attr:${x}`)
  return { script: b.script, op: b.op }
}
