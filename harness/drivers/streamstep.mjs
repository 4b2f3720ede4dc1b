// Feeds the chunk sequences of StreamStep to streamText, one chunk at a time.
import * as stx from 'repo:packages/stream-text'
import * as tel from 'repo:packages-ext/telemetry'
import { bytesOf, collect, controlledBody, eq, settle, show, splitBytes, sseEvent, streamResponse, text, watchPromise } from '../core.mjs'

export const run = async (b, ctx) => {
  const r = ctx.rng
  const flavour = ctx.variant?.flavour ?? 'stream'
  const field = r.pick(['reasoning', 'reasoning_content'])
  const bothFields = r.bool(0.2)
  const texts = new Map(); const reasons = new Map(); const pieces = new Map()
  const key = (n, j) => `${n}.${j}`
  const ids = new Map(); const names = new Map()
  const toolNames = ['weather', 'add', 'x']
  const indices = [...new Set(b.chunks.flatMap(c => c.fr.map(f => f.i)))]
  for (const i of indices) { ids.set(i, r.bool(0.1) ? `call ${i}` : `call_${i}_${r.int(99)}`); names.set(i, r.pick(toolNames)) }
  // the argument text of a call: valid JSON cut into the pieces the behaviour asks for
  const argValue = new Map()
  for (const [k, call] of b.calls.entries()) {
    const i = b.order[k]
    const v = { a: text(r, `i${i}`), n: i }
    let s = JSON.stringify(v)
    argValue.set(i, call.p.length === 0 ? {} : v)
    const cps = [...s]
    const per = Math.ceil(cps.length / Math.max(1, call.p.length))
    for (const [m, p] of call.p.entries()) {
      // every piece is non-empty
      const rest = cps.length - (call.p.length - 1 - m)
      const take = m === call.p.length - 1 ? cps.length : Math.max(1, Math.min(rest, r.bool() ? per : 1 + r.int(3)))
      pieces.set(key(p.n, p.j), cps.splice(0, take).join(''))
    }
  }
  const usageOf = { a: { completion_tokens: 3, prompt_tokens: 5 + r.int(5), total_tokens: 20 }, b: { completion_tokens: 0, prompt_tokens: 0, total_tokens: 0 } }
  const finOf = r.pick([{ a: 'stop', b: 'length' }, { a: 'tool_calls', b: 'stop' }, { a: 'content_filter', b: 'tool_calls' }])
  const seen = new Set()
  const noFr = x => x.fr.length === 0
  const concrete = b.chunks.map((x, idx) => {
    const n = idx + 1
    const out = { created: 1, id: 'c', model: 'm', object: 'chat.completion.chunk', system_fingerprint: 'fp' }
    if (x.u !== 'none') out.usage = usageOf[x.u]
    else if (r.bool(0.3)) out.usage = null
    if (x.ch === 'missing') return out
    if (x.ch === 'empty') return { ...out, choices: [] }
    const delta = {}
    if (idx === 0 && r.bool()) delta.role = 'assistant'
    if (x.g === 'text' || x.g === 'empty') { const t = x.g === 'text' ? text(r, `r${n}.`) : ''; reasons.set(n, t); delta[field] = t; if (bothFields) { delta.reasoning = t; delta.reasoning_content = t } }
    else if (x.g === 'null') { delta.reasoning = null; delta.reasoning_content = null }
    if (x.c === 'text') { const t = text(r, `t${n}.`); texts.set(n, t); delta.content = t; if (r.bool(0.1)) delta.refusal = null }
    else if (x.c === 'empty') { texts.set(n, ''); delta.content = '' }
    else if (x.c === 'null') delta.content = null
    else if (x.c === 'refusal') { const t = text(r, `f${n}.`); texts.set(n, t); delta.refusal = t; if (r.bool(0.3)) delta.content = null }
    if (!noFr(x)) {
      delta.tool_calls = x.fr.map((f, jj) => {
        const first = !seen.has(f.i)
        seen.add(f.i)
        const fn = {}
        if (f.a === 'piece') fn.arguments = pieces.get(key(n, jj + 1))
        if (f.a === 'empty') fn.arguments = ''
        if (f.a === 'absent' && r.bool(0.2)) fn.arguments = null
        if (first) return { function: { name: names.get(f.i), ...fn }, id: ids.get(f.i), index: f.i, type: 'function' }
        return { function: { ...fn, ...(r.bool(0.1) ? { name: names.get(f.i) } : {}) }, index: f.i, ...(r.bool(0.2) ? { id: r.pick([ids.get(f.i), '', null]), type: 'function' } : {}) }
      })
    }
    else if (r.bool(0.1)) delta.tool_calls = r.pick([[], null])
    const choice = { delta, index: 0, logprobs: null }
    if (x.f !== 'none') choice.finish_reason = finOf[x.f]
    else if (r.bool()) choice.finish_reason = null
    return { ...out, choices: [choice] }
  })

  // ------------------------------------------------------------------ run
  const body = controlledBody()
  const bodies = []
  const steps = []; const onEvents = []; const executed = []
  const options = {
    baseURL: 'http://api.test/v1/',
    fetch: async (_, init) => {
      bodies.push(JSON.parse(init.body))
      if (bodies.length === 1) return streamResponse(body.stream)
      return streamResponse(new ReadableStream({ start: (c) => { c.enqueue(bytesOf(sseEvent(JSON.stringify({ choices: [{ delta: { content: 'second' }, finish_reason: 'stop', index: 0 }] })))); c.close() } }))
    },
    messages: [{ content: 'q', role: 'user' }],
    model: 'm',
    onEvent: (e) => { onEvents.push(structuredClone(e)) },
    onStepFinish: (s) => { steps.push(structuredClone(s)) },
    stopWhen: ({ steps }) => steps.length >= 2,
    tools: toolNames.map(name => ({ execute: async (input, o) => { executed.push({ id: o.toolCallId, input, name }); if (r.bool()) await settle(1); return `result of ${o.toolCallId}` }, function: { name, parameters: { type: 'object' } }, type: 'function' })),
    ...(flavour === 'tstream' ? { telemetry: {} } : {}),
  }
  const res = (flavour === 'tstream' ? tel : stx).streamText(options)
  const c = { event: collect(res.eventStream), full: collect(res.fullStream), reason: collect(res.reasoningTextStream), text: collect(res.textStream) }
  const ps = { messages: watchPromise(res.messages), steps: watchPromise(res.steps), total: watchPromise(res.totalUsage), usage: watchPromise(res.usage) }
  await settle(2)

  const evConcrete = (e) => {
    switch (e.t) {
      case 'step.start': return { type: 'step.start' }
      case 'text.start': return { type: 'text.start' }
      case 'reasoning.start': return { type: 'reasoning.start' }
      case 'text.delta': return { delta: texts.get(e.n), type: 'text.delta' }
      case 'reasoning.delta': return { delta: reasons.get(e.n), type: 'reasoning.delta' }
      case 'text.done': return { content: b.txt.map(n => texts.get(n)).join(''), type: 'text.done' }
      case 'reasoning.done': return { content: b.rsn.map(n => reasons.get(n)).join(''), type: 'reasoning.done' }
      case 'call.start': return { toolCallId: ids.get(e.i), toolName: names.get(e.i), type: 'tool-call.start' }
      case 'call.delta': return { delta: pieces.get(key(e.n, e.j)), type: 'tool-call.delta' }
      case 'call.done': return { args: rawArgs(e.i), toolCallId: ids.get(e.i), toolCallType: 'function', toolName: names.get(e.i), type: 'tool-call.done' }
      case 'result': return { args: argValue.get(e.i), result: `result of ${ids.get(e.i)}`, toolCallId: ids.get(e.i), toolName: names.get(e.i), type: 'tool-result.done' }
      case 'step.done': return { type: 'step.done', usage: use() }
    }
  }
  const rawArgs = i => b.calls[b.order.indexOf(i)].p.map(p => pieces.get(key(p.n, p.j))).join('')
  const use = () => { const u = usageOf[b.use]; return u && { inputTokens: u.prompt_tokens, outputTokens: u.completion_tokens, totalTokens: u.total_tokens } }
  // argument deltas without content may be reported or not
  const clean = xs => xs.filter(e => !(e.type === 'tool-call.delta' && !e.delta))
  const cmp = (facet, what, actual, want) => { if (!eq(actual, want)) { const i = want.findIndex((w, i) => !eq(actual[i], w)); ctx.diff(facet, `${what}: ${i < 0 ? `surplus ${show(actual.slice(want.length))}` : `item ${i} is ${show(actual[i])}, expected ${show(want[i])}`}`) } }

  const evs = b.evs.map(evConcrete)
  const reasonsAll = b.rsn.map(n => reasons.get(n)); const textsAll = b.txt.map(n => texts.get(n))
  for (const [i, chunk] of concrete.entries()) {
    for (const piece of splitBytes(bytesOf(sseEvent(JSON.stringify(chunk), r)), r)) body.push(piece)
    await settle(2)
    const l = b.lens[i]
    const at = `after chunk ${i + 1}`
    // delivered as soon as it has arrived, and no sooner
    cmp('full', `full stream ${at}`, c.full.items, concrete.slice(0, i + 1))
    cmp('text', `text stream ${at}`, c.text.items, textsAll.slice(0, l.t))
    cmp('reason', `reasoning stream ${at}`, c.reason.items, reasonsAll.slice(0, l.r))
    const nEv = clean(evs.slice(0, l.v))
    cmp('events', `event stream ${at}`, clean(c.event.items), nEv)
    cmp('onevent', `onEvent ${at}`, clean(onEvents), nEv)
  }
  if (r.bool()) body.push(bytesOf(sseEvent('[DONE]', r)))
  body.close()
  await settle(b.order.length > 0 ? 8 : 4)

  const two = b.order.length > 0
  for (const [s, x] of Object.entries(c)) if (x.state !== 'closed') ctx.diff('outcome', `the ${s} stream ended as ${x.state} ${show(x.error)}${x.error?.stack ?? ''}`)
  for (const [p, x] of Object.entries(ps)) if (x.state !== 'resolved') ctx.diff('outcome', `promise ${p} is ${x.state} ${show(x.error)}`)
  const second = [{ type: 'step.start' }, { type: 'text.start' }, { delta: 'second', type: 'text.delta' }, { content: 'second', type: 'text.done' }, { type: 'step.done', usage: undefined }]
  const allEvs = clean([...evs, ...(two ? second : [])])
  const noUse = xs => xs.map(e => (e.type === 'step.done' ? { type: 'step.done' } : e))
  cmp('events', 'event stream', noUse(clean(c.event.items)), noUse(allEvs))
  cmp('onevent', 'onEvent', noUse(clean(onEvents)), noUse(allEvs))
  cmp('usage', 'step-done usage', c.event.items.filter(e => e.type === 'step.done'), allEvs.filter(e => e.type === 'step.done'))
  cmp('onevent', 'onEvent compared with the event stream', onEvents, c.event.items)
  cmp('text', 'text stream', c.text.items, [...textsAll, ...(two ? ['second'] : [])])
  cmp('reason', 'reasoning stream', c.reason.items, reasonsAll)
  if (c.full.items.length !== concrete.length + (two ? 1 : 0)) ctx.diff('full', `full stream delivered ${c.full.items.length} chunks, expected ${concrete.length + (two ? 1 : 0)}`)
  else cmp('full', 'full stream', c.full.items.slice(0, concrete.length), concrete)
  const st = steps[0]
  const wantCalls = b.order.map(i => ({ args: rawArgs(i), toolCallId: ids.get(i), toolCallType: 'function', toolName: names.get(i) }))
  if (steps.length !== (two ? 2 : 1)) ctx.diff('step', `${steps.length} steps`)
  else {
    if (st.text !== textsAll.join('')) ctx.diff('step', `step text ${show(st.text)}, expected ${show(textsAll.join(''))}`)
    if (!eq(st.toolCalls, wantCalls)) ctx.diff('step', `step calls ${show(st.toolCalls)}, expected ${show(wantCalls)}`)
    if (st.finishReason !== (finOf[b.fin] ?? 'other')) ctx.diff('step', `finish reason ${show(st.finishReason)}, expected ${finOf[b.fin] ?? 'other'}`)
    if (!eq(st.usage, use())) ctx.diff('usage', `step usage ${show(st.usage)}, expected ${show(use())}`)
    if (!eq(st.toolResults.map(x => x.toolCallId), wantCalls.map(x => x.toolCallId))) ctx.diff('step', `step results ${show(st.toolResults)}`)
  }
  for (const [k, i] of b.order.entries()) {
    const x = executed.filter(e => e.id === ids.get(i))
    if (x.length !== 1 || x[0].name !== names.get(i) || !eq(x[0].input, argValue.get(i))) ctx.diff('step', `call ${ids.get(i)} was executed as ${show(x)}, expected ${names.get(i)}(${show(argValue.get(i))})`)
  }
  // history
  const hist = ps.messages.value
  if (hist) {
    const m = hist[1]
    const calls = m?.tool_calls?.map(t => ({ a: t?.function?.arguments, i: t?.id, n: t?.function?.name, t: t?.type }))
    const wc = two ? wantCalls.map(w => ({ a: w.args, i: w.toolCallId, n: w.toolName, t: 'function' })) : undefined
    if (m?.role !== 'assistant' || m.content !== textsAll.join('') || (m.reasoning ?? m.reasoning_content) !== (reasonsAll.length ? reasonsAll.join('') : undefined) || !(eq(calls, wc) || (!two && eq(calls, [])))) ctx.diff('step', `assistant message ${show(m)}, expected text ${show(textsAll.join(''))}, reasoning ${show(reasonsAll.join(''))}, calls ${show(wc)}`)
    if (reasonsAll.length && !bothFields && m?.[field] === undefined) ctx.diff('step', `the reasoning field ${field} is not used in ${show(m)}`)
    const results = hist.slice(2, 2 + b.order.length)
    if (!eq(results.map(x => [x.role, x.tool_call_id, x.content]), b.order.map(i => ['tool', ids.get(i), `result of ${ids.get(i)}`]))) ctx.diff('step', `tool messages ${show(results)}`)
    if (two && bodies[1] && !eq(bodies[1].messages, JSON.parse(JSON.stringify(hist.slice(0, -1))))) ctx.diff('step', 'the second request does not carry the history')
  }
  if (ctx.unhandled.length) ctx.diff('outcome', `unhandled ${show(ctx.unhandled[0])}`)
  ctx.count(`calls:${b.order.length}`)
  return { behaviour: b.chunks, flavour }
}
