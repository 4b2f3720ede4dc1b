// Feeds the server event sequences of RespStep to responses(), one event at a time.
import * as rsp from 'repo:packages-ext/responses'
import { RemoteAPIError } from 'repo:packages/shared'
import { bytesOf, collect, controlledBody, eq, settle, show, splitBytes, sseEvent, streamResponse, text, watchPromise } from '../core.mjs'

const pieces = (r, s, k) => {
  const cps = [...s]
  const cuts = Array.from({ length: k - 1 }, () => r.int(cps.length + 1)).sort((a, b) => a - b)
  return Array.from({ length: k }, (_, i) => cps.slice(i === 0 ? 0 : cuts[i - 1], i === k - 1 ? undefined : cuts[i]).join(''))
}

export const run = async (b, ctx) => {
  const r = ctx.rng
  const toolNames = ['weather', 'add', 'x']
  const calls = new Map()
  for (const i of new Set(b.log.filter(x => x.i > 0).map(x => x.i))) {
    const value = r.bool(0.2) ? {} : { a: text(r, `i${i}`), n: i }
    const raw = Object.keys(value).length === 0 ? r.pick(['', '{}']) : JSON.stringify(value)
    const nd = b.log.filter(x => x.k === 'call.delta' && x.i === i).length
    calls.set(i, { deltas: nd ? pieces(r, raw, nd) : [], id: r.bool(0.1) ? `call ${i}é` : `call_${i}_${r.int(99)}`, itemId: `fc_${i}`, name: r.pick(toolNames), raw, value })
  }
  const respId = `resp_${r.int(1e6)}`
  const usage = { input_tokens: r.int(3) * 7, input_tokens_details: { cached_tokens: 0 }, output_tokens: r.int(3) * 5, output_tokens_details: { reasoning_tokens: 0 }, total_tokens: r.int(99) }
  const T = new Map() // event number -> its text
  const I = new Map() // event number -> its completed item
  const base = (n) => ({ item_id: `it_${n % 3}`, output_index: n % 4 })
  const one = (x, n) => {
    const t = r.bool(0.1) ? '' : text(r, `e${n}.`)
    const c = calls.get(x.i)
    const set = () => { T.set(n, t); return t }
    switch (x.k) {
      case 'created': return { response: { error: null, id: respId, output: [], status: 'in_progress' }, type: 'response.created' }
      case 'queued': return { response: { id: respId, output: [], status: 'queued' }, type: 'response.queued' }
      case 'progress': return { response: { error: null, id: respId, output: [], status: 'in_progress' }, type: 'response.in_progress' }
      case 'part.output_text': return { ...base(n), content_index: 0, part: { annotations: [], logprobs: [], text: '', type: 'output_text' }, type: 'response.content_part.added' }
      case 'part.text': return { ...base(n), content_index: 0, part: { text: '', type: 'text' }, type: 'response.content_part.added' }
      case 'part.refusal': return { ...base(n), content_index: 0, part: { refusal: '', type: 'refusal' }, type: 'response.content_part.added' }
      case 'part.other': return { ...base(n), content_index: 0, part: { text: '', type: r.pick(['reasoning_text', 'summary_text', 'input_text']) }, type: 'response.content_part.added' }
      case 'part.done': return { ...base(n), content_index: 0, part: { text: t, type: r.pick(['output_text', 'text']) }, type: 'response.content_part.done' }
      case 'text.delta': return { ...base(n), content_index: 0, delta: set(), logprobs: [], type: 'response.output_text.delta' }
      case 'text.done': return { ...base(n), content_index: 0, logprobs: [], text: set(), type: 'response.output_text.done' }
      case 'refusal.delta': return { ...base(n), content_index: 0, delta: set(), type: 'response.refusal.delta' }
      case 'refusal.done': return { ...base(n), content_index: 0, refusal: set(), type: 'response.refusal.done' }
      case 'reasoning.added': return { item: { id: `rs_${n}`, summary: [], type: 'reasoning' }, output_index: 0, type: 'response.output_item.added' }
      case 'reasoning.delta': return { ...base(n), content_index: 0, delta: set(), type: 'response.reasoning.delta' }
      case 'reasoning.done': return { ...base(n), content_index: 0, text: set(), type: 'response.reasoning.done' }
      case 'summary.delta': return { ...base(n), delta: set(), summary_index: 0, type: 'response.reasoning_summary_text.delta' }
      case 'summary.done': return { ...base(n), summary_index: 0, text: set(), type: 'response.reasoning_summary_text.done' }
      case 'summary.part.added': return { ...base(n), part: { text: '', type: 'summary_text' }, summary_index: 0, type: 'response.reasoning_summary_part.added' }
      case 'summary.part.done': return { ...base(n), part: { text: t, type: 'summary_text' }, summary_index: 0, type: 'response.reasoning_summary_part.done' }
      case 'annotation': return { ...base(n), annotation: { title: 't', type: 'url_citation', url: 'u' }, annotation_index: 0, content_index: 0, type: 'response.output_text.annotation.added' }
      case 'message.added': return { item: { content: [], id: `msg_${n}`, role: 'assistant', status: 'in_progress', type: 'message' }, output_index: 0, type: 'response.output_item.added' }
      case 'null.added': return { item: null, output_index: 0, type: 'response.output_item.added' }
      case 'null.done': return { item: null, output_index: 0, type: 'response.output_item.done' }
      case 'unknown': return { ...base(n), delta: t, type: r.pick(['response.audio.delta', 'response.web_search_call.completed', 'keepalive']) }
      case 'item.message': {
        const part = () => r.pick([() => ({ annotations: [], text: text(r, `m${n}`), type: 'output_text' }), () => ({ text: text(r, `p${n}`), type: 'text' }), () => ({ refusal: 'no', type: 'refusal' })])()
        I.set(n, { content: Array.from({ length: r.int(3) }, part), id: `msg_${n}`, role: 'assistant', status: 'completed', type: 'message' }); break
      }
      case 'item.reasoning': I.set(n, { encrypted_content: r.bool() ? 'xyz' : null, id: `rs_${n}`, summary: [{ text: t, type: 'summary_text' }], type: 'reasoning' }); break
      case 'item.compaction': I.set(n, { encrypted_content: 'abc', id: `cmp_${n}`, type: 'compaction' }); break
      // servers define types of their own, and run tools on their side
      case 'item.other': I.set(n, r.pick([{ action: { query: t, type: 'search' }, id: `ws_${n}`, status: 'completed', type: 'web_search_call' }, { data: [t, null], id: `x_${n}`, type: 'acme:thing' }, { call_id: 'server', id: `fo_${n}`, output: t, status: 'completed', type: 'function_call_output' }, { arguments: '{}', id: `mcp_${n}`, name: 'toolA', output: t, server_label: 's', type: 'mcp_call' }])); break
      case 'call.added': return { item: { arguments: '', call_id: c.id, id: c.itemId, name: c.name, status: 'in_progress', type: 'function_call' }, output_index: x.i, type: 'response.output_item.added' }
      case 'call.delta': T.set(n, c.deltas[c.next ??= 0]); return { delta: c.deltas[c.next++], item_id: c.itemId, output_index: x.i, type: 'response.function_call_arguments.delta' }
      case 'call.argsdone': return { arguments: c.raw, item_id: c.itemId, output_index: x.i, type: 'response.function_call_arguments.done' }
      case 'call.done': I.set(n, { arguments: c.raw, call_id: c.id, id: c.itemId, name: c.name, status: 'completed', type: 'function_call' }); break
      default: throw new Error(`no event ${x.k}`)
    }
    return { item: I.get(n), output_index: 0, type: 'response.output_item.done' }
  }
  let seq = 0
  const concrete = b.log.map((x, i) => JSON.parse(JSON.stringify({ ...one(x, i + 1), sequence_number: seq++ })))
  const items = b.items.map(n => I.get(n))
  const end = b.end
  const use = end.use === 'yes' ? usage : undefined
  const outUse = use && { inputTokens: use.input_tokens, outputTokens: use.output_tokens, totalTokens: use.total_tokens }
  const closing = ['completed', 'failed', 'incomplete'].includes(end.e)
    ? { response: { error: end.e === 'failed' ? { code: 'x', message: 'broke' } : null, id: respId, output: items, status: end.e, ...(use ? { usage: use } : r.bool() ? { usage: null } : {}) }, sequence_number: seq++, type: `response.${end.e}` }
    : undefined

  // ------------------------------------------------------------------ run
  const body = controlledBody()
  const bodies = []; const steps = []; const onEvents = []; const executed = []; const stops = []; let finishes = 0
  const caller = [{ content: 'q', role: 'user', type: 'message' }]
  const secondText = 'second'
  const second = [
    { response: { id: 'resp_2', output: [], status: 'in_progress' }, sequence_number: 0, type: 'response.created' },
    { content_index: 0, delta: secondText, item_id: 'm', output_index: 0, sequence_number: 1, type: 'response.output_text.delta' },
    { item: { content: [{ annotations: [], text: secondText, type: 'output_text' }], id: 'm', role: 'assistant', status: 'completed', type: 'message' }, output_index: 0, sequence_number: 2, type: 'response.output_item.done' },
    { response: { id: 'resp_2', output: [{ content: [{ annotations: [], text: secondText, type: 'output_text' }], id: 'm', role: 'assistant', status: 'completed', type: 'message' }], status: 'completed' }, sequence_number: 3, type: 'response.completed' },
  ]
  const secondEv = [{ type: 'step.start' }, { delta: secondText, type: 'text.delta' }, { type: 'step.done', usage: undefined }]
  const slow = r.shuffle([...calls.keys()])
  const res = rsp.responses({
    baseURL: 'http://api.test/v1/',
    fetch: async (_, init) => {
      bodies.push(JSON.parse(init.body))
      if (bodies.length === 1) return streamResponse(body.stream)
      return streamResponse(new ReadableStream({ start: (c) => { for (const e of second) c.enqueue(bytesOf(sseEvent(JSON.stringify(e), r))); c.close() } }))
    },
    input: caller,
    model: 'm',
    onEvent: (e) => { onEvents.push(structuredClone(e)) },
    onFinish: () => { finishes++ },
    onStepFinish: (s) => { steps.push(structuredClone(s)) },
    stopWhen: ({ input, steps: all }) => { stops.push({ input: structuredClone(input), n: all.length }); return all.length >= 2 || end.stop === 'yes' },
    tools: toolNames.map(name => ({
      execute: async (input, o) => {
        executed.push({ id: o.toolCallId, input, name })
        const i = [...calls.entries()].find(([, c]) => c.id === o.toolCallId)?.[0]
        await settle(1 + slow.indexOf(i) % 3)
        return `result of ${o.toolCallId}`
      },
      function: { name, parameters: { type: 'object' } }, type: 'function',
    })),
  })
  const c = { event: collect(res.eventStream), full: collect(res.fullStream), reason: collect(res.reasoningTextStream), text: collect(res.textStream) }
  const ps = { input: watchPromise(res.input), steps: watchPromise(res.steps), total: watchPromise(res.totalUsage), usage: watchPromise(res.usage) }
  await settle(2)

  const toolCall = i => { const x = calls.get(i); return { args: x.raw, toolCallId: x.id, toolCallType: 'function', toolName: x.name } }
  const result = i => { const x = calls.get(i); return { args: x.value, result: `result of ${x.id}`, toolCallId: x.id, toolName: x.name } }
  const evConcrete = (e) => {
    switch (e.t) {
      case 'step.start': case 'text.start': case 'reasoning.start': return { type: e.t }
      case 'text.delta': case 'reasoning.delta': return { delta: T.get(e.n), type: e.t }
      case 'text.done': case 'reasoning.done': return { content: T.get(e.n), type: e.t }
      case 'call.start': return { toolCallId: calls.get(e.i).id, toolName: calls.get(e.i).name, type: 'tool-call.start' }
      case 'call.delta': return { delta: T.get(e.n), type: 'tool-call.delta' }
      case 'call.done': return { ...toolCall(e.i), type: 'tool-call.done' }
      case 'result': return { ...result(e.i), type: 'tool-result.done' }
      case 'step.done': return { type: 'step.done', usage: outUse }
    }
    throw new Error(e.t)
  }
  const cmp = (facet, what, actual, want) => { if (!eq(actual, want)) { const i = want.findIndex((w, i) => !eq(actual[i], w)); ctx.diff(facet, `${what}: ${i < 0 ? `surplus ${show(actual.slice(want.length))}` : `item ${i} is ${show(actual[i])}, expected ${show(want[i])}`}`) } }
  const evs = b.out.ev.map(evConcrete)
  const texts = b.out.text.map(n => T.get(n)); const reasons = b.out.reason.map(n => T.get(n))
  for (const [i, e] of concrete.entries()) {
    const named = r.bool() ? `event: ${e.type}\n` : ''
    for (const piece of splitBytes(bytesOf(named + sseEvent(JSON.stringify(e), named ? undefined : r)), r)) body.push(piece)
    await settle(2)
    const l = b.lens[i]
    const at = `after event ${i + 1} (${b.log[i].k})`
    cmp('full', `full stream ${at}`, c.full.items, concrete.slice(0, i + 1))
    cmp('text', `text stream ${at}`, c.text.items, texts.slice(0, l.t))
    cmp('reason', `reasoning stream ${at}`, c.reason.items, reasons.slice(0, l.r))
    cmp('events', `event stream ${at}`, c.event.items, evs.slice(0, l.v))
    cmp('onevent', `onEvent ${at}`, onEvents, evs.slice(0, l.v))
  }
  const cut = new Error('connection lost')
  const srverr = JSON.stringify({ error: { code: 'x', message: 'overloaded', type: 'server_error' }, sequence_number: seq, type: 'error' })
  if (end.e === 'cut') body.error(cut)
  else {
    body.push(bytesOf(sseEvent(end.e === 'srverr' ? srverr : JSON.stringify(closing), r)))
    if (r.bool(0.4)) body.push(bytesOf(sseEvent('[DONE]', r)))
    if (!(end.runs && r.bool())) body.close()
  }
  await settle(b.order.length > 0 ? 12 : 5)

  // ------------------------------------------------------------------ outcome
  const two = end.runs
  const failed = !closing
  for (const [s, x] of Object.entries(c)) {
    if (!failed) { if (x.state !== 'closed') ctx.diff('outcome', `the ${s} stream ended as ${x.state} ${show(x.error)}`) }
    else if (x.state !== 'errored' || !(end.e === 'cut' ? x.error === cut : RemoteAPIError.isInstance(x.error) && x.error.responseBody === srverr)) ctx.diff('outcome', `the ${s} stream ended as ${x.state} ${show(x.error)}, expected the failure`)
  }
  for (const [p, x] of Object.entries(ps)) {
    if (x.state !== (failed ? 'rejected' : 'resolved')) ctx.diff('outcome', `promise ${p} is ${x.state} ${show(x.error)}`)
  }
  if (finishes !== 1) ctx.diff('outcome', `onFinish was called ${finishes} times`)
  cmp('full', 'full stream', c.full.items, [...concrete, ...(closing ? [JSON.parse(JSON.stringify(closing))] : []), ...(two ? second : [])])
  cmp('text', 'text stream', c.text.items, [...texts, ...(two ? [secondText] : [])])
  cmp('reason', 'reasoning stream', c.reason.items, reasons)
  cmp('events', 'event stream', c.event.items, [...evs, ...(two ? secondEv : [])])
  cmp('onevent', 'onEvent', onEvents, [...evs, ...(two ? secondEv : [])])
  // the step
  if (steps.length !== (failed ? 0 : two ? 2 : 1)) ctx.diff('step', `${steps.length} steps were recorded`)
  else if (!failed) {
    const outText = items.filter(x => x.type === 'message').flatMap(x => x.content).filter(p => p.type === 'output_text' || p.type === 'text').map(p => p.text).join('')
    const st = steps[0]
    if (st.finishReason !== end.reason) ctx.diff('step', `finish reason ${show(st.finishReason)}, expected ${end.reason}`)
    if ((st.text ?? '') !== outText) ctx.diff('step', `step text ${show(st.text)}, expected ${show(outText)}`)
    if (!eq(st.usage, outUse)) ctx.diff('usage', `step usage ${show(st.usage)}, expected ${show(outUse)}`)
    if (!eq(st.toolCalls, b.order.map(toolCall))) ctx.diff('step', `step calls ${show(st.toolCalls)}, expected ${show(b.order.map(toolCall))}`)
    if (!eq(st.toolResults, two ? b.order.map(result) : [])) ctx.diff('step', `step results ${show(st.toolResults)}`)
    if (!two && !eq(ps.usage.value, outUse)) ctx.diff('usage', `usage ${show(ps.usage.value)}, expected ${show(outUse)}`)
    if (!eq(ps.total.value, outUse)) ctx.diff('usage', `total usage ${show(ps.total.value)}, expected ${show(outUse)}`)
  }
  // executions and requests
  const wantEx = two ? b.order.map(i => calls.get(i)) : []
  if (!eq(executed.map(e => [e.id, e.name, e.input]), wantEx.map(x => [x.id, x.name, x.value]))) ctx.diff('tools', `executed ${show(executed)}, expected ${show(wantEx)}`)
  if (bodies.length !== (two ? 2 : 1)) ctx.diff('req', `${bodies.length} requests, expected ${two ? 2 : 1}`)
  if (end.e === 'completed' && stops.length !== (two ? 2 : 1)) ctx.diff('stop', `the stop condition was asked ${stops.length} times`)
  if (end.e !== 'completed' && stops.length) ctx.diff('stop', 'the stop condition was asked')
  const hist = [...caller, ...items]
  const isOutput = (x, i) => x?.type === 'function_call_output' && x.call_id === calls.get(i).id && x.output === `result of ${calls.get(i).id}`
  const history = (what, got, outputs, tail) => {
    const n = hist.length
    if (!Array.isArray(got) || !eq(got.slice(0, n), hist)) { ctx.diff('input', `${what}: ${show(got)}, expected to begin with ${show(hist)}`); return }
    const outs = got.slice(n, n + (outputs ? b.order.length : 0))
    if (outputs && !(outs.length === b.order.length && b.order.every((i, k) => isOutput(outs[k], i)))) ctx.diff('input', `${what}: outputs ${show(outs)}, expected those of ${b.order.map(i => calls.get(i).id)}`)
    if (!eq(got.slice(n + outs.length), tail)) ctx.diff('input', `${what}: ends with ${show(got.slice(n + outs.length))}, expected ${show(tail)}`)
  }
  if (end.e === 'completed' && stops[0]) history('history seen by the stop condition', stops[0].input, false, [])
  if (two && bodies[1]) history('second request', bodies[1].input, true, [])
  if (!failed && ps.input.state === 'resolved') history('resulting input', JSON.parse(JSON.stringify(ps.input.value)), two, two ? [second[2].item] : [])
  if (!eq(caller, [{ content: 'q', role: 'user', type: 'message' }])) ctx.diff('input', 'the caller\'s input was modified')
  if (ctx.unhandled.length) ctx.diff('outcome', `unhandled ${show(ctx.unhandled[0])}`)
  ctx.count(`end:${end.e}`); ctx.count(`calls:${b.order.length}`); if (two) ctx.count('runs')
  return { behaviour: b.log, end }
}
