// Renders the abstract steps of ChatLoop behaviours to concrete provider messages, and the abstract
// history / events / results to the concrete values a user must observe.
import { text } from './core.mjs'

const FINISH = ['stop', 'length', 'tool_calls', 'content_filter', 'other', 'error', 'function_call']

const jsonValue = (r, depth = 0) => {
  switch (r.int(depth > 1 ? 5 : 7)) {
    case 0: return r.int(1000)
    case 1: return text(r, `v${r.int(1000)}`)
    case 2: return r.bool()
    case 3: return null
    case 4: return ''
    case 5: return Array.from({ length: r.int(3) }, () => jsonValue(r, depth + 1))
    default: return Object.fromEntries(Array.from({ length: r.int(3) }, (_, i) => [`k${i}`, jsonValue(r, depth + 1)]))
  }
}
export { jsonValue }

const argsFor = (r) => {
  const value = r.bool(0.15) ? {} : Object.fromEntries(Array.from({ length: 1 + r.int(3) }, (_, i) => [r.pick(['a', 'city', 'Ünits', 'x y']) + i, jsonValue(r)]))
  let raw = JSON.stringify(value)
  if (Object.keys(value).length === 0 && r.bool()) raw = r.pick(['', ' ', '\n', '{}'])
  else if (r.bool(0.2)) raw = ` ${raw}\n`
  else if (r.bool(0.2)) raw = JSON.stringify(value, null, 2)
  return { raw, value }
}

/** names which no tool has but which resemble those that exist */
export const strangeName = (r, names) => {
  const n = r.pick(names)
  const all = ['missing', `${n}_`, `${n} `, ` ${n}`, `functions.${n}`, `default_api:${n}`, `mcp__${n}`, `${n}.${n}`, `${n}:1`, `${n}()`, n.slice(0, -1), n.slice(1), n.toUpperCase(), n[0].toUpperCase() + n.slice(1), '', 'undefined', 'toString', '0']
  return r.pick(all.filter(x => !names.includes(x)))
}

const PARTS = [
  () => ({ text: 'part', type: 'text' }),
  () => ({ image_url: { url: 'https://img/x.png' }, type: 'image_url' }),
  () => ({ input_audio: { data: 'AA==', format: 'wav' }, type: 'input_audio' }),
  () => ({ file: { file_id: 'f1' }, type: 'file' }),
]
const RPARTS = [
  () => ({ text: 'part', type: 'input_text' }),
  () => ({ image_url: 'https://img/x.png', type: 'input_image' }),
  () => ({ file_id: 'f1', type: 'input_file' }),
]

/** tool value -> [value returned by the tool, content expected in the history] */
export const toolValue = (r, api, tag) => {
  switch (r.int(6)) {
    case 0: { const s = text(r, tag); return [s, s] }
    case 1: return ['', '']
    case 2: { const o = { tag, value: jsonValue(r) }; return [o, JSON.stringify(o)] }
    case 3: { const a = [tag, jsonValue(r)]; return [a, JSON.stringify(a)] }
    case 4: { // content parts of this API
      const parts = Array.from({ length: 1 + r.int(2) }, () => r.pick(api === 'resp' ? RPARTS : PARTS)())
      return [parts, parts]
    }
    default: { // parts of the other API, or mixed: plain JSON
      const parts = r.bool() ? [r.pick(api === 'resp' ? PARTS : RPARTS)()] : [r.pick(api === 'resp' ? RPARTS : PARTS)(), 7]
      return [parts, JSON.stringify(parts)]
    }
  }
}

export class Render {
  constructor(api, r, opts = {}) {
    this.api = api
    this.r = r
    this.steps = new Map()
    this.toolNames = opts.toolNames ?? r.shuffle(['weather', 'add', 'näme', 'search_web', 'x-1', 'a', 'weather2']).slice(0, 3)
    this.reasoningField = r.pick(['reasoning', 'reasoning_content'])
    // some servers use the same ids again in every step (2), or for every call (3)
    this.idStyle = opts.uniqueIds ? r.int(2) : r.pick([0, 0, 0, 1, 1, 1, 2, 3])
    this.sameId = r.pick(['', 'call', '0'])
    this.keys = new Map()
    this.opts = opts
    this.user = this.makeUser()
    { const n = r.int(9); this.model = n < 5 ? `model-${n}` : `Org/Model:${n}B` }
    this.toolChoice = r.pick([undefined, 'auto', 'required', 'none', this.api === 'resp' ? { name: this.toolNames[1], type: 'function' } : { function: { name: this.toolNames[1] }, type: 'function' }])
    this.err = {
      net: Object.assign(new TypeError('fetch failed'), { tag: 'net' }),
      prep: new Error('prepare failed'),
      stop: new Error('stop failed'),
      stepcb: new Error('step callback failed'),
      fincb: new Error('finish callback failed'),
      cut: new Error('connection lost'),
      evcb: new Error('event callback failed'),
    }
    // anything can be thrown
    for (const k of ['prep', 'stop', 'stepcb', 'fincb', 'evcb', 'net', 'cut']) if (r.bool(0.12)) this.err[k] = r.pick([undefined, null, 0, '', 'text', false])
    this.abortReason = r.pick([null, undefined, new Error('user abort'), new DOMException('gone', 'AbortError'), 'plain reason'])
  }

  makeUser() {
    const r = this.r
    if (this.api === 'resp') {
      if (r.bool(0.3)) return text(r, 'question')
      return [
        ...(r.bool() ? [{ content: text(r, 'sys'), role: 'system', type: 'message' }] : []),
        { content: r.bool() ? text(r, 'question') : [{ text: 'question', type: 'input_text' }], role: 'user', type: 'message' },
      ]
    }
    return [
      ...(r.bool() ? [{ content: text(r, 'sys'), role: 'system' }] : []),
      ...(r.bool(0.3) ? [{ content: 'hi', role: 'user' }, { content: 'hello', role: 'assistant' }] : []),
      { content: r.bool() ? text(r, 'question') : [{ text: 'question', type: 'text' }, { image_url: { url: 'data:x' }, type: 'image_url' }], role: 'user' },
    ]
  }

  userHistory() {
    return typeof this.user === 'string' ? [{ content: this.user, role: 'user', type: 'message' }] : this.user
  }

  /** concrete data of step s whose abstract response is rec */
  step(s, rec) {
    if (this.steps.has(s)) return this.steps.get(s)
    const r = this.r
    const hasText = rec.x === 'text'
    const hasReason = rec.g === 'yes'
    // what is there may be empty
    const t1 = hasText && r.bool(0.93) ? text(r, `s${s}a`) : ''
    // the second half of a text may come in many pieces
    const p2 = hasText ? Array.from({ length: this.opts.burst && r.bool(0.5) ? this.opts.burst : 1 }, (_, i) => (r.bool(0.93) ? text(r, `s${s}b${i || ''}`) : '')) : ['']
    const t2 = p2.join('')
    const reason = hasReason ? r.bool(0.93) ? text(r, `r${s}`) : '' : undefined
    const calls = []
    for (let i = 1; i <= rec.k; i++) {
      const kind = rec.kinds[i - 1]
      const a = this.idStyle < 2 ? argsFor(r) : (v => ({ raw: JSON.stringify(v), value: v }))({ 'key of call': `${s}.${i}`, 'x': jsonValue(r) })
      const call = {
        id: [`call_${s}_${i}`, `${s}${i}é`, `call_${i}`, this.sameId][this.idStyle],
        key: `${s}.${i}`,
        kind,
        name: kind === 'unknown' ? strangeName(r, this.toolNames) : kind === 'noname' ? undefined : r.pick(this.toolNames),
        raw: kind === 'badargs' ? r.pick(['{', '{"a":', 'not json', '{"a":1}}', '[1,']) : a.raw,
        value: kind === 'badargs' ? undefined : a.value,
        itemId: `fc_${s}_${i}`,
      }
      ;[call.returns, call.content] = toolValue(r, this.api, `out${s}.${i}`)
      call.throws = r.pick([new Error(`tool ${s}.${i} failed`), new RangeError(`tool ${s}.${i} failed`), `tool ${s}.${i} failed`])
      this.keys.set(call.id, call.key)
      calls.push(call)
    }
    const u = () => { const a = r.int(1000); const b = r.int(1000); return { i: a, o: b, t: a + b + (r.bool(0.2) ? 7 : 0) } }
    const finish = this.api === 'stream' && r.bool(0.1) ? undefined : r.pick(FINISH)
    const st = {
      s, rec, t1, t2, p2, reason, calls, finish,
      usage: rec.u === 'none' ? undefined : u(),
      usageEarly: rec.u === 'two' ? u() : undefined,
      tag: r.int(1e6),
      // the field may change from one step to the next
      field: r.bool(0.8) ? this.reasoningField : r.pick(['reasoning', 'reasoning_content']),
    }
    this.steps.set(s, st)
    this[`render_${this.api}`](st)
    return st
  }

  usageOut(u) { return u == null ? undefined : { inputTokens: u.i, outputTokens: u.o, totalTokens: u.t } }

  // ------------------------------------------------------------------ generateText
  render_gen(st) {
    const r = this.r
    let content
    if (st.rec.x === 'none') { content = r.pick([null, '', undefined]); st.text = content }
    else if (r.bool(0.3)) {
      content = [{ text: st.t1, type: 'text' }, ...(r.bool(0.3) ? [{ refusal: 'no', type: 'refusal' }] : []), { text: st.t2, type: 'text' }]
      st.text = `${st.t1}\n${st.t2}`
    }
    else { content = st.t1 + st.t2; st.text = content }
    const message = { content, role: 'assistant' }
    if (r.bool(0.2)) message.refusal = null
    if (r.bool(0.2)) message.annotations = []
    if (st.reason != null) message[st.field] = st.reason
    // a server may fill both fields, or leave the other one null
    if (st.reason != null && r.bool(0.25)) message[st.field === 'reasoning' ? 'reasoning_content' : 'reasoning'] = st.field === 'reasoning' && r.bool() ? `also ${st.reason}` : st.field === 'reasoning' ? st.reason : null
    if (st.calls.length > 0) message.tool_calls = st.calls.map(c => ({ function: { arguments: c.raw, name: c.name }, id: c.id, type: 'function' }))
    else if (r.bool(0.2)) message.tool_calls = []
    st.message = JSON.parse(JSON.stringify(message))
    st.body = {
      choices: [{ finish_reason: st.finish, index: 0, message }, ...(r.bool(0.15) ? [{ finish_reason: 'stop', index: 1, message: { content: 'other choice', role: 'assistant' } }] : [])],
      created: 1, id: `cmpl-${st.tag}`, model: 'm', object: 'chat.completion', system_fingerprint: 'fp',
      usage: { completion_tokens: st.usage.o, prompt_tokens: st.usage.i, total_tokens: st.usage.t },
    }
  }

  // ------------------------------------------------------------------ streamText
  render_stream(st) {
    const r = this.r
    const chunk = (delta, extra = {}) => ({ choices: [{ delta, index: 0, ...(extra.finish !== undefined ? { finish_reason: extra.finish } : r.bool(0.3) ? { finish_reason: null } : {}) }], created: 1, id: `c-${st.tag}`, model: 'm', object: 'chat.completion.chunk', ...(extra.usage ? { usage: extra.usage } : {}) })
    const usage = u => ({ completion_tokens: u.o, prompt_tokens: u.i, total_tokens: u.t })
    const half1 = []
    if (r.bool(0.4)) half1.push(chunk({ role: 'assistant' }))
    if (st.reason != null) half1.push(chunk({ [st.field]: st.reason }))
    const kind = r.bool(0.85) ? 'content' : 'refusal'
    if (st.rec.x === 'text') half1.push(chunk({ [kind]: st.t1 }))
    if (half1.length === 0) half1.push({ ...chunk({}), choices: [] })
    const half2 = []
    if (st.usageEarly) half2.push({ ...chunk({}), choices: [], usage: usage(st.usageEarly) })
    if (st.rec.x === 'text') half2.push(...st.p2.map(x => chunk({ [kind]: x })))
    // all calls at once
    const whole = st.calls.length > 0 && r.bool(0.25) && !(this.opts.counted && st.calls.some(c => c.raw === ''))
    if (whole) half2.push(chunk({ tool_calls: st.calls.map((c, i) => ({ function: { arguments: c.raw, name: c.name }, id: c.id, index: i, type: 'function' })) }))
    for (const [i, c] of whole ? [] : st.calls.entries()) {
      half2.push(chunk({ tool_calls: [{ function: { arguments: r.bool(0.5) ? '' : undefined, name: c.name }, id: c.id, index: i, type: 'function' }] }))
      half2.push(chunk({ tool_calls: [{ function: { arguments: c.raw }, index: i }] }))
    }
    const separate = r.bool(0.5)
    if (st.finish !== undefined || half2.length === 0) half2.push(chunk({}, { finish: st.finish, usage: !separate && st.usage ? usage(st.usage) : undefined }))
    if (st.usage && (separate || st.finish === undefined && half2.length > 0 && !half2.some(c => c.usage && c.choices.length > 0)))
      half2.push({ choices: [], created: 1, id: `c-${st.tag}`, model: 'm', object: 'chat.completion.chunk', usage: usage(st.usage) })
    st.parts = { 1: half1.map(x => JSON.parse(JSON.stringify(x))), 2: half2.map(x => JSON.parse(JSON.stringify(x))) }
    st.text = st.t1 + st.t2
    st.message = {
      content: st.text, role: 'assistant',
      ...(st.reason != null ? { [st.field]: st.reason } : {}),
      ...(st.calls.length ? { tool_calls: st.calls.map(c => ({ function: { arguments: c.raw, name: c.name }, id: c.id, type: 'function' })) } : {}),
    }
  }

  // ------------------------------------------------------------------ responses
  render_resp(st) {
    const r = this.r
    const reasonMode = r.pick(['reasoning', 'reasoning_summary_text'])
    const refusal = r.bool(0.15)
    const items = []
    const e1 = []; const e2 = []
    const seq = { n: 0 }
    const ev = (type, x) => ({ ...x, sequence_number: seq.n++, type })
    e1.push(ev('response.created', { response: { id: `resp_${st.tag}`, output: [], status: 'in_progress' } }))
    if (r.bool(0.3)) e1.push(ev('response.in_progress', { response: { id: `resp_${st.tag}`, output: [], status: 'in_progress' } }))
    let oi = 0
    if (st.reason != null) {
      const item = { id: `rs_${st.tag}`, summary: [{ text: st.reason, type: 'summary_text' }], type: 'reasoning' }
      e1.push(ev('response.output_item.added', { item: { ...item, summary: [] }, output_index: oi }))
      e1.push(ev(`response.${reasonMode}.delta`, { delta: st.reason, item_id: item.id, output_index: oi }))
      e2.push(ev(`response.${reasonMode}.done`, { item_id: item.id, output_index: oi, text: st.reason }))
      e2.push(ev('response.output_item.done', { item, output_index: oi }))
      items.push(item); oi++
    }
    st.text = undefined
    if (st.rec.x === 'text') {
      const part = refusal ? { refusal: st.t1 + st.t2, type: 'refusal' } : { annotations: [], text: st.t1 + st.t2, type: 'output_text' }
      const item = { content: [part], id: `msg_${st.tag}`, role: 'assistant', status: 'completed', type: 'message' }
      e1.push(ev('response.output_item.added', { item: { ...item, content: [], status: 'in_progress' }, output_index: oi }))
      e1.push(ev('response.content_part.added', { content_index: 0, item_id: item.id, output_index: oi, part: refusal ? { refusal: '', type: 'refusal' } : { annotations: [], text: '', type: 'output_text' } }))
      const d = refusal ? 'response.refusal' : 'response.output_text'
      e1.push(ev(`${d}.delta`, { content_index: 0, delta: st.t1, item_id: item.id, output_index: oi }))
      for (const delta of st.p2) e2.push(ev(`${d}.delta`, { content_index: 0, delta, item_id: item.id, output_index: oi }))
      e2.push(ev(`${d}.done`, { content_index: 0, item_id: item.id, output_index: oi, ...(refusal ? { refusal: st.t1 + st.t2 } : { text: st.t1 + st.t2 }) }))
      e2.push(ev('response.content_part.done', { content_index: 0, item_id: item.id, output_index: oi, part }))
      e2.push(ev('response.output_item.done', { item, output_index: oi }))
      items.push(item); oi++
      st.text = refusal ? undefined : st.t1 + st.t2
    }
    if (r.bool(0.15)) {
      const item = r.pick([{ action: { query: 'é', type: 'search' }, id: `ws_${st.tag}`, status: 'completed', type: 'web_search_call' }, { id: `cmp_${st.tag}`, encrypted_content: 'xyz', type: 'compaction' }, { id: `x_${st.tag}`, type: 'acme:thing', value: null }])
      e2.push(ev('response.output_item.added', { item: { ...item, status: 'in_progress' }, output_index: oi }))
      e2.push(ev('response.output_item.done', { item, output_index: oi }))
      items.push(item); oi++
    }
    for (const c of st.calls) {
      const item = { arguments: c.raw, call_id: c.id, id: c.itemId, name: c.name, status: 'completed', type: 'function_call' }
      e2.push(ev('response.output_item.added', { item: { ...item, arguments: '', status: 'in_progress' }, output_index: oi }))
      e2.push(ev('response.function_call_arguments.delta', { delta: c.raw, item_id: item.id, output_index: oi }))
      e2.push(ev('response.function_call_arguments.done', { arguments: c.raw, item_id: item.id, output_index: oi }))
      e2.push(ev('response.output_item.done', { item, output_index: oi }))
      items.push(item); oi++
    }
    const usage = st.usage && { input_tokens: st.usage.i, output_tokens: st.usage.o, total_tokens: st.usage.t, input_tokens_details: { cached_tokens: 0 }, output_tokens_details: { reasoning_tokens: 0 } }
    const end = st.rec.end ?? 'done'
    // some servers leave out of the closing event what they already announced
    st.bare = st.calls.length > 0 && r.bool(0.2)
    const resp = { id: `resp_${st.tag}`, output: st.bare ? items.filter(x => x.type !== 'function_call') : items, status: end === 'done' ? 'completed' : end, ...(usage ? { usage } : r.bool() ? { usage: null } : {}) }
    e2.push(ev(end === 'done' ? 'response.completed' : `response.${end}`, { response: resp }))
    st.items = JSON.parse(JSON.stringify(items))
    st.parts = { 1: JSON.parse(JSON.stringify(e1)), 2: JSON.parse(JSON.stringify(e2.slice(0, -1))), 3: JSON.parse(JSON.stringify(e2.slice(-1))) }
  }

  finishReason(st) {
    if (this.api !== 'resp') return st.finish ?? (this.api === 'stream' ? 'other' : undefined)
    const end = st.rec.end ?? 'done'
    return end === 'failed' ? 'error' : end === 'incomplete' ? 'length' : st.calls.length > 0 ? 'tool-calls' : 'stop'
  }

  /** whether the text reported for the step is right */
  textOk(st, actual) { const f = x => (this.api === 'resp' && x === '' ? undefined : x ?? undefined); return f(actual) === f(st.text) }

  /** whether the finish reason reported for the step is right */
  finishOk(st, actual) {
    const want = this.finishReason(st)
    // a closing event without the calls may be described either way
    return (actual ?? undefined) === want || (st.bare && want === 'tool-calls' && actual === 'stop')
  }

  /** which call a tool was started for */
  keyOf(id, input) { return this.idStyle < 2 ? this.keys.get(id) ?? id : input?.['key of call'] ?? id }

  call(s, i) { return this.steps.get(s).calls[i - 1] }

  toolCall(c) { return { args: c.raw, toolCallId: c.id, toolCallType: 'function', toolName: c.name ?? '' } }

  /** expected tool result for the outcome token; message is a predicate for failures */
  result(c, out) {
    const base = { toolCallId: c.id, toolName: c.name }
    switch (out) {
      case 'ok': return { ...base, args: c.value, content: c.content, result: c.returns }
      case 'throw': return { ...base, args: c.value, isError: true, includes: [c.name, c.throws instanceof Error ? c.throws.message : c.throws] }
      case 'aborted': return { ...base, args: c.kind === 'unknown' ? c.raw : c.kind === 'badargs' ? c.raw : c.value, isError: true, includes: [c.name, 'abort'] }
      case 'unknown': return { ...base, args: c.raw, isError: true, includes: [c.name] }
      case 'badargs': return { ...base, args: c.raw, isError: true, includes: [c.name] }
    }
    throw new Error(`no such outcome ${out}`)
  }

  /** expected concrete history; entries of tool results hold the matcher under $tool */
  history(msgs) {
    const out = [...this.userHistory()]
    for (const m of msgs) {
      const st = this.steps.get(m.s)
      if (m.r === 'a') {
        if (this.api === 'resp') out.push(...st.items)
        else out.push(st.message)
      }
      else out.push({ $tool: this.result(st.calls[m.i - 1], m.out) })
    }
    return out
  }

  /** the concrete deltas of an abstract piece of text */
  pieces(x) { const st = this.steps.get(x.s); return x.p === 1 ? [st.t1] : st.p2 }

  /** expected concrete events for an abstract one */
  events(e) { return e.t === 'text.delta' ? this.pieces(e).map(delta => ({ delta, type: 'text.delta' })) : [this.event(e)] }

  /** expected concrete event for an abstract one; result events hold a matcher */
  event(e) {
    const st = this.steps.get(e.s)
    switch (e.t) {
      case 'step.start': return { type: 'step.start' }
      case 'step.done': return { type: 'step.done', usage: this.usageOut(st.usage) }
      case 'reasoning.start': return { type: 'reasoning.start' }
      case 'reasoning.delta': return { delta: st.reason, type: 'reasoning.delta' }
      case 'reasoning.done': return { content: st.reason, type: 'reasoning.done' }
      case 'text.start': return { type: 'text.start' }
      case 'text.done': return { content: st.t1 + st.t2, type: 'text.done' }
      case 'call.start': { const c = this.call(e.s, e.i); return { toolCallId: c.id, toolName: c.name, type: 'tool-call.start' } }
      case 'call.delta': { const c = this.call(e.s, e.i); return { delta: c.raw, type: 'tool-call.delta' } }
      case 'call.done': { const c = this.call(e.s, e.i); return { ...this.toolCall(c), type: 'tool-call.done' } }
      case 'result': return { $result: this.result(this.call(e.s, e.i), e.out) }
    }
    throw new Error(`unknown event ${e.t}`)
  }
}
