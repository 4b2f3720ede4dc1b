// Replays Structured through generateObject and streamObject, next to the plain text functions.
import { generateObject } from 'repo:packages/generate-object'
import { generateText } from 'repo:packages/generate-text'
import { streamObject } from 'repo:packages/stream-object'
import { streamText } from 'repo:packages/stream-text'
import { bytesOf, collect, deferred, eq, jsonResponse, settle, show, streamResponse, until, watchPromise } from '../core.mjs'
import { schemaOf } from '../endpoints.mjs'
import { renderSchema, schemaChoices } from './schema.mjs'

const VALUES = [{ a: 'x' }, { a: { b: [1, null] } }, { 'é': '🙂', 'n': -1.5 }, [], 'text', 0, false, null, '', { elements: 'x' }, { error: 'no error' }]

export const run = async (b, ctx) => {
  const r = ctx.rng
  const { cfg } = b
  const choices = schemaChoices(r, cfg.tree.length)
  const given = renderSchema(cfg.tree, choices)
  const want0 = renderSchema(cfg.tree, choices, b.sent.closed, b.sent.refs)
  const wantSchema = b.sent.wrapped ? { additionalProperties: false, properties: { elements: { items: want0, type: 'array' } }, required: ['elements'], type: 'object' } : want0
  const ans = b.h[0]

  // what the server says
  const values = b.verdict.length > 0 ? b.verdict.map((_, i) => (cfg.output === 'array' ? r.bool(0.7) ? { i, v: r.pick(VALUES) } : r.pick(VALUES) : r.pick(VALUES))) : [{ i: 0 }]
  const elements = cfg.output === 'array' ? (ans.n === 0 ? [] : b.verdict.length ? values : [{ a: 'x' }]) : undefined
  const content = {
    cutjson: () => r.pick(['{"a":"x"', '{"elements":[{"a":1}', '[1,', '"x']),
    elements: () => JSON.stringify(cfg.output === 'array' ? { elements, ...(r.bool(0.2) ? { extra: 1 } : {}) } : values[0]),
    empty: () => '',
    listnull: () => (cfg.output === 'array' ? '{"elements":null}' : JSON.stringify(values[0])),
    nolist: () => (cfg.output === 'array' ? r.pick(['{}', 'null', '[]', '3', '"elements"', 'true']) : JSON.stringify(values[0])),
    notjson: () => r.pick(['Sure! {"a":1}', '```json\n{"a":"x"}\n```', 'undefined', '{a:1}', '{"a":1} and', '[DONE]', '\'x\'', ' ', '\n']),
    notlist: () => (cfg.output === 'array' ? r.pick(['{"elements":"abc"}', '{"elements":{"0":1}}', '{"elements":3}', '{"elements":true}']) : JSON.stringify(values[0])),
    null: () => null,
    refusal: () => null,
    value: () => (cfg.output === 'array' ? r.pick(['{"a":"x"}', '{"a":{"elements":[]}}']) : JSON.stringify(values[0])),
  }[ans.a]()
  const pad = content && r.bool(0.2) ? ` ${content}\n` : content
  const usage = { completion_tokens: r.int(9), prompt_tokens: r.int(9), total_tokens: r.int(9) }
  const message = { content: pad, role: 'assistant', ...(ans.a === 'refusal' ? { refusal: r.pick(['I cannot', '{ no']) } : {}), ...(r.bool(0.3) ? { reasoning_content: 'because' } : {}) }
  const call = { function: { arguments: '{"q":1}', name: 'look' }, id: 'c1', type: 'function' }
  const answers = [...Array.from({ length: cfg.pre }, () => ({ choices: [{ finish_reason: 'tool_calls', index: 0, message: { content: r.pick([null, 'wait', '{"a":"early"}']), role: 'assistant', tool_calls: [call] } }], usage })), { choices: [{ finish_reason: r.pick(['stop', 'length']), index: 0, message }], usage }]
  const split = s => { const out = []; for (let i = 0; i < s.length;) { const k = 1 + r.int(6); out.push(s.slice(i, i + k)); i += k } return out }
  const chunks = split(pad ?? 'x')

  const fetchFor = (log, streaming) => async (url, init) => {
    log.push({ body: JSON.parse(init.body), headers: init.headers, url: String(url) })
    const a = answers[log.length - 1]
    if (!a) return new Response('', { status: 500 })
    if (!streaming) return jsonResponse(a)
    const m = a.choices[0].message
    const ms = m.tool_calls
      ? [{ choices: [{ delta: { tool_calls: [{ ...call, index: 0 }] }, finish_reason: 'tool_calls', index: 0 }], usage }]
      : [...chunks.map(content => ({ choices: [{ delta: { content }, index: 0 }] })), { choices: [{ delta: {}, finish_reason: 'stop', index: 0 }], usage }]
    return streamResponse(new Blob([bytesOf(ms.map(x => `data: ${JSON.stringify(x)}\n\n`).join(''))]).stream())
  }

  // the schema's validator answers when it is told to
  const gates = []
  const validate = (value) => { const g = deferred(); gates.push({ value, ...g }); return g.promise }
  const outputs = b.verdict.map((_, i) => r.pick([{ parsed: i }, { parsed: i }, null, undefined, 0, '']))
  const verdictOf = i => (b.verdict[i] === 'ok' ? { value: outputs[i] } : b.verdict[i] === 'bad' ? { issues: r.pick([[{ message: 'no' }], [{ message: 'a', path: ['x'] }, { message: 'b' }], []]) } : undefined)
  // a validator that answers at once
  const sync = b.verdict.length === 1 && r.bool()
  const schema = schemaOf(given, sync ? (value) => { gates.push({ value }); const v = verdictOf(0); if (v === undefined) throw new Error('validator'); return v } : validate)

  const tools = [{ execute: () => 'found', function: { name: 'look', parameters: { type: 'object' } }, type: 'function' }]
  const shared = () => ({ apiKey: 'k', baseURL: 'http://srv.test/v1/', messages: [{ content: 'q', role: 'user' }], model: 'm', ...(cfg.pre > 0 ? { stopWhen: ({ steps }) => steps.length > 5, tools } : {}), ...extra })
  const extra = r.bool() ? { seed: 3, temperature: 0, topP: 0.5 } : {}
  const name = r.pick(['n', 'my schema', '']); const description = r.pick(['d', 'long é', ''])
  const own = {
    schema,
    ...(cfg.output === 'absent' ? {} : { output: cfg.output }),
    ...(cfg.strict === 'absent' ? {} : { strict: cfg.strict === 'true' }),
    ...(b.sent.name ? { schemaName: name } : {}),
    ...(b.sent.description ? { schemaDescription: description } : {}),
  }
  const say = (facet, m) => ctx.diff(facet, `${cfg.fn} ${show({ ...cfg, tree: undefined })}: ${m}`)

  const log = []; const plainLog = []
  const checkRequests = () => {
    const format = { json_schema: { ...(b.sent.description ? { description } : {}), name: b.sent.name ? name : 'json_schema', schema: wantSchema, strict: b.sent.strict }, type: 'json_schema' }
    if (log.length !== plainLog.length) { say('request', `${log.length} requests, the text function makes ${plainLog.length}`); return }
    for (const [i, q] of log.entries()) {
      const { response_format, ...rest } = q.body
      if (!eq(response_format, format)) say('request', `request ${i + 1} asks for ${show(response_format)}, expected ${show(format)}`)
      if (!eq(rest, plainLog[i].body) || !eq({ ...q.headers }, { ...plainLog[i].headers }) || q.url !== plainLog[i].url) say('request', `request ${i + 1}: ${show(q)}, the text function sends ${show(plainLog[i])}`)
    }
  }

  if (cfg.fn === 'stream') {
    const plain = streamText({ ...shared(), fetch: fetchFor(plainLog, true) })
    const res = await streamObject({ ...shared(), ...own, fetch: fetchFor(log, true) })
    const read = async (x) => {
      const streams = Object.fromEntries(Object.entries(x).filter(([, v]) => v instanceof ReadableStream).map(([k, v]) => [k, collect(v)]))
      const promises = Object.fromEntries(Object.entries(x).filter(([, v]) => v instanceof Promise).map(([k, v]) => [k, watchPromise(v)]))
      await until(() => Object.values(streams).every(s => s.state !== 'open') && Object.values(promises).every(p => p.state !== 'pending'))
      return { promises: Object.fromEntries(Object.entries(promises).map(([k, p]) => [k, p.value])), streams: Object.fromEntries(Object.entries(streams).map(([k, s]) => [k, s.items])) }
    }
    const a = await read(plain); const c = await read(res)
    for (const k of Object.keys(a.promises)) if (!eq(a.promises[k], c.promises[k])) say('result', `${k} is ${show(c.promises[k])}, streamText's ${show(a.promises[k])}`)
    for (const k of Object.keys(a.streams)) if (!eq(a.streams[k], c.streams[k])) say('result', `${k} delivered ${show(c.streams[k])}, streamText's ${show(a.streams[k])}`)
    if (cfg.output === 'array' ? !c.streams.elementStream || res.partialObjectStream : !c.streams.partialObjectStream || res.elementStream) say('result', 'offers the wrong object stream')
    checkRequests()
    ctx.count('streamed')
  }
  else {
    const plain = await generateText({ ...shared(), fetch: fetchFor(plainLog, false) })
    const w = watchPromise(generateObject({ ...shared(), ...own, fetch: fetchFor(log, false) }))
    await until(() => w.state !== 'pending' || gates.length >= b.verdict.length && b.verdict.length > 0)
    if (!sync) {
      if (gates.length !== b.verdict.length) { say('validate', `the schema was asked about ${gates.length} values, expected ${b.verdict.length}; outcome ${w.state} ${show(w.error)} for ${show(content)}`); return }
      let failed = false
      for (const x of b.h.slice(1)) {
        if (w.state !== 'pending' && !failed) { say('outcome', `${w.state} before element ${x.i} was validated`); return }
        const g = gates[x.i - 1]; const v = verdictOf(x.i - 1)
        if (v === undefined) g.reject(new Error('validator')); else g.resolve(v)
        failed ||= x.out === 'failed'
        await settle(2)
      }
    }
    await until(() => w.state !== 'pending')
    for (const [i, g] of gates.entries()) if (!eq(g.value, cfg.output === 'array' ? elements[i] : values[0])) say('validate', `value ${i + 1} given to the schema is ${show(g.value)}, the answer has ${show(elements?.[i] ?? values[0])}`)
    if (gates.length !== b.verdict.length) say('validate', `the schema was asked about ${gates.length} values, expected ${b.verdict.length}`)
    if (b.out === 'object') {
      if (w.state !== 'resolved') { say('outcome', `failed with ${show(w.error)} for the answer ${show(content)}, expected an object`); return }
      const wantObject = cfg.output === 'array' ? outputs : outputs[0]
      const { object, ...rest } = w.value
      if (!eq(object, wantObject) || (Array.isArray(wantObject) && object.length !== wantObject.length)) say('object', `returned ${show(object)}, the schema's output is ${show(wantObject)}`)
      for (const k of Object.keys(plain)) if (!eq(rest[k], plain[k])) say('result', `${k} is ${show(rest[k])}, generateText's ${show(plain[k])}`)
    }
    else if (w.state !== 'rejected') { say('outcome', `returned ${show(w.value?.object)} for the answer ${show(content)}, expected a failure`); return }
    else {
      const bad = b.verdict.some(v => v === 'bad')
      if ((ans.a === 'empty' || ans.a === 'null') && (w.error?.name !== 'InvalidResponseError' || w.error?.reason !== 'empty_body')) say('error', `an empty answer fails with ${show(w.error)}`)
      if (!(w.error instanceof Error) && !bad) say('error', `fails with ${show(w.error)}`)
    }
    checkRequests()
    ctx.count(`gen:${b.out}`)
  }
  if (ctx.unhandled.length) ctx.diff('outcome', `unhandled ${show(ctx.unhandled[0])}`)
  return { cfg: { ...cfg, tree: undefined }, answer: content, out: b.out }
}
