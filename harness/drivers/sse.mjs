// Feeds the line sequences of SSE to every endpoint that streams, in many spellings and chunkings.
import * as stx from 'repo:packages/stream-text'
import * as rsp from 'repo:packages-ext/responses'
import * as tr from 'repo:packages/stream-transcription'
import * as sp from 'repo:packages/stream-speech'
import * as tel from 'repo:packages-ext/telemetry'
import { JSONParseError, RemoteAPIError } from 'repo:packages/shared'
import { bytesOf, collect, controlledBody, eq, settle, show, splitBytes, streamResponse, text } from '../core.mjs'
import '../polyfill.mjs'

// what a message with the given data stands for on each endpoint
const TARGETS = {
  resp: {
    make: (r, n) => ({ n, text: text(r, `m${n}`), type: r.pick(['response.output_text.annotation.added', 'x.custom']) }),
    expect: m => m,
    plain: true,
    run: o => rsp.responses({ ...o, input: 'q' }),
    stream: x => x.fullStream,
    promises: x => [x.input, x.steps, x.usage, x.totalUsage],
    others: x => [x.textStream, x.eventStream, x.reasoningTextStream],
  },
  speech: {
    make: (r, n) => ({ audio: Buffer.from(`m${n}.${r.int(1000)}`).toString('base64'), note: text(r, 'é'), type: 'speech.audio.delta' }),
    expect: m => new Uint8Array(Buffer.from(m.audio, 'base64')),
    run: o => sp.streamSpeech({ ...o, input: 'q', voice: 'v' }),
    stream: x => x.fullStream,
    promises: x => [x.usage],
    others: () => [],
  },
  stream: {
    make: (r, n) => r.pick([{ choices: [], n, text: text(r, `m${n}`) }, { n, x: [text(r, `m${n}`)] }, { choices: [{ delta: { content: text(r, `m${n}`) }, index: 0 }], id: 'é' }]),
    expect: m => m,
    plain: true,
    run: o => stx.streamText({ ...o, messages: [] }),
    stream: x => x.fullStream,
    promises: x => [x.messages, x.steps, x.usage, x.totalUsage],
    others: x => [x.textStream, x.eventStream, x.reasoningTextStream],
  },
  transcription: {
    make: (r, n) => ({ delta: text(r, `m${n}`), type: 'transcript.text.delta' }),
    expect: m => m,
    run: o => tr.streamTranscription({ ...o, file: new Blob(['x']) }),
    stream: x => x.fullStream,
    promises: x => [x.text],
    others: x => [x.textStream],
  },
}
TARGETS.tstream = { ...TARGETS.stream, run: o => tel.streamText({ ...o, messages: [], telemetry: {} }) }

const inPieces = (all, size) => Array.from({ length: Math.ceil(all.length / size) }, (_, i) => all.slice(i * size, (i + 1) * size))

export const run = async (b, ctx) => {
  const r = ctx.rng
  const T = TARGETS[ctx.variant.target]
  const data = new Map(); const value = new Map()
  // some messages are larger than anything one would buffer
  const huge = ctx.job.huge && r.bool(0.5)
  for (const [i, k] of b.lines.entries()) {
    const n = i + 1
    switch (k) {
      case 'ok': { const m = T.make(r, n); if (huge) m.padding = text(r, 'long '.repeat(r.pick([1000, 14000, 60000]))); value.set(n, m); const s = JSON.stringify(m); data.set(n, r.bool(0.15) ? ` ${s} ` : s); break }
      case 'mention': { const m = T.plain && r.bool(0.25) ? r.pick(['error', '{"error":{}}', ['error'], [{ error: { message: 'inner' } }], 7, true]) : { ...T.make(r, n), hint: r.pick(['error', '"error":', '{"error":{"message":"no"}}', { error: 1 }, ['error', { error: {} }]]) }; value.set(n, m); data.set(n, JSON.stringify(m)); break }
      case 'err': data.set(n, JSON.stringify(r.pick([{ error: { message: `é boom ${n}` } }, { error: 'text', type: 'x' }, { choices: [], error: { code: 500 } }, { error: '', code: 500 }, { error: 0 }, { error: false }, { error: {} }, { ...T.make(r, n), error: { message: 'late' } }, { choices: [{ delta: { content: 'half an answer' }, finish_reason: 'error', index: 0 }], error: { code: 502 }, id: 'x' }]))); break
      case 'bad': data.set(n, r.pick(['{', 'nonsense', '{"a":1}]', `{"a":"${n}`, '[DONE', '[DONE]x', 'DONE', 'undefined', '{\'a\':1}', '{"error":', 'é', ':ping', ': keep-alive', 'data: {}', 'null,'])); break
      case 'done': data.set(n, '[DONE]'); break
      case 'empty': data.set(n, ''); break
    }
  }
  // halves that belong together share one message
  for (const d of b.delivered) {
    const hs = d.filter(n => ['half1', 'half2'].includes(b.lines[n - 1]))
    if (hs.length === 2) { const m = T.make(r, hs[0]); const s = JSON.stringify(m, null, 1).replaceAll('\n', ' '); const cut = s.indexOf('{') + 1; value.set(hs[0], m); data.set(hs[0], s.slice(0, cut)); data.set(hs[1], s.slice(cut)) }
  }
  for (const [i, k] of b.lines.entries()) if (!data.has(i + 1)) { if (k === 'half1') data.set(i + 1, 'half{'); if (k === 'half2') data.set(i + 1, 'half}') }
  const want = b.delivered.map(d => T.expect(value.get(d.find(n => value.has(n)))))

  // spelling
  const mode = r.pick(['\n', '\n', '\r\n', '\r', 'mixed'])
  const term = () => (mode === 'mixed' ? r.pick(['\n', '\r\n', '\r']) : mode)
  const spelled = b.lines.map((k, i) => {
    const n = i + 1
    let t = term()
    // a lone carriage return followed by an empty line ended by a newline would be one line end
    const line = k === 'blank'
      ? ''
      : k === 'comment'
        ? `:${r.pick(['', ' keep-alive', 'data: {"x":', ' é'])}`
        : k === 'field'
          ? r.pick(['event: message', 'event:error', 'id: 12', 'id', 'retry: 10', 'retry:soon', 'event'])
          : k === 'junk'
            ? r.pick(['foo: bar', 'datas: {"a":1}', ' data: {"a":1}', 'error', '{"error":1}', 'Data: x'])
            : k === 'empty' ? r.pick(['data:', 'data', 'data: ']) : `data:${r.bool(0.7) ? ' ' : ''}${data.get(n)}`
    if (k === 'ok' && data.get(n).startsWith(' ')) return { line: `data: ${data.get(n)}`, t }
    return { line, t }
  })
  for (let i = 0; i + 1 < spelled.length; i++)
    if (spelled[i].t === '\r' && spelled[i + 1].line === '' && spelled[i + 1].t.startsWith('\n')) spelled[i + 1].t = '\r\n' === spelled[i + 1].t ? '\r' : '\r'
  // the data of an event, as an error has to carry it
  const failing = () => {
    let from = b.lines.length - 1
    while (from > 0 && b.lines[from - 1] !== 'blank') from--
    const ds = []
    for (let i = from; i < b.lines.length - 1; i++) if (data.has(i + 1)) ds.push(data.get(i + 1))
    return ds.join('\n')
  }
  const whole = spelled.map(x => x.line + x.t).join('')
  const tail = spelled.length > 0 && spelled.at(-1).t === '\r' ? ': end\n' : r.pick(['', '', ': end', 'data: {"unfinished'])
  const bom = r.bool(0.1) ? '\uFEFF' : ''

  // ------------------------------------------------------------------ runs
  const attempt = async (chunks, { stepwise } = {}) => {
    const body = controlledBody()
    const o = { baseURL: 'http://api.test/', fetch: async () => streamResponse(body.stream), model: 'm' }
    const res = await T.run(o)
    const c = collect(T.stream(res))
    const rest = T.others(res).map(collect)
    const ps = T.promises(res).map((p) => { const w = { state: 'pending' }; p.then((v) => { w.state = 'resolved'; w.value = v }, (e) => { w.state = 'rejected'; w.error = e }); return w })
    for (const ch of chunks) {
      if (stepwise) {
        for (const x of ch.bytes.length > 5000 ? inPieces(ch.bytes, 16384) : splitBytes(ch.bytes, r)) body.push(x)
        await settle(2)
        // a message is delivered as soon as its event is complete
        const min = ch.cr ? ch.before : ch.count
        if (c.items.length < min || c.items.length > ch.count) ctx.diff('timing', `after line ${ch.line}: ${c.items.length} messages delivered, expected ${min === ch.count ? min : `${min} or ${ch.count}`}; input ${show(whole)}`)
      }
      else body.push(ch)
    }
    body.close()
    for (let i = 0; i < 50 && (c.state === 'open' || ps.some(p => p.state === 'pending') || rest.some(x => x.state === 'open')); i++) await settle(1)
    const what = `input ${show(bom + whole + tail)} in ${chunks.length} chunks`
    if (b.failed === '') {
      if (c.state !== 'closed') { ctx.diff('outcome', `the stream ended as ${c.state} ${show(c.error)}, expected closed; ${what}`); return false }
      if (!eq(c.items, want)) { ctx.diff('messages', `decoded ${show(c.items)}, expected ${show(want)}; ${what}`); return false }
      if (ps.some(p => p.state !== 'resolved')) ctx.diff('settled', `promises ${ps.map(p => p.state)}; ${what}`)
    }
    else {
      if (c.state !== 'errored') { ctx.diff('outcome', `the stream ended as ${c.state}, expected ${b.failed} error; ${what}`); return false }
      const ok = b.failed === 'parse' ? JSONParseError.isInstance(c.error) && c.error.text === failing() && c.error.code === 'json_parse_error' && c.error.cause instanceof SyntaxError : RemoteAPIError.isInstance(c.error) && c.error.responseBody === failing() && c.error.code === 'remote_api_error'
      if (!ok) { ctx.diff('error', `the stream failed with ${show(c.error)} ${show(c.error?.text ?? c.error?.responseBody)}, expected a ${b.failed} error for ${show(failing())}; ${what}`); return false }
      if (!eq(c.items, want.slice(0, c.items.length)) || (stepwise && c.items.length !== want.length)) { ctx.diff('messages', `decoded ${show(c.items)}, expected ${show(want)}; ${what}`); return false }
      if (ps.some(p => p.state !== 'rejected' || p.error !== c.error)) ctx.diff('settled', `promises ${ps.map(p => p.state)}; ${what}`)
    }
    return true
  }
  // 1. line by line, each line in arbitrary pieces
  const lineChunks = spelled.map((x, i) => ({ before: b.counts[i - 1] ?? 0, bytes: bytesOf((i === 0 ? bom : '') + x.line + x.t), count: b.counts[i], cr: x.t === '\r', line: i + 1 }))
  // after the failure nothing is fed any more, except by servers that do not notice
  await attempt([...lineChunks, { before: b.delivered.length, bytes: bytesOf(tail), count: b.delivered.length, cr: false, line: 'end' }], { stepwise: true })
  // 2. other chunkings of the same bytes. What was decoded right before a failure may be unread when the stream fails.
  const all = bytesOf(bom + whole + tail)
  const size = r.pick([1000, 16384, 65536])
  const plans = all.length > 5000 ? [[all], inPieces(all, size)] : [[all], Array.from(all, x => new Uint8Array([x])), splitBytes(all, r, 1), splitBytes(all, r, 2)]
  const every = ctx.job.everySplit
  if (every) for (let i = 1; i < all.length; i += (all.length > 250 ? 3 : 1)) plans.push([all.slice(0, i), all.slice(i)])
  else for (let k = 0; k < 3 && all.length > 2; k++) { const i = 1 + r.int(all.length - 1); plans.push([all.slice(0, i), all.slice(i)]) }
  for (const p of plans) { ctx.count('chunkings'); if (!await attempt(p)) break }
  await settle(1)
  if (ctx.unhandled.length) ctx.diff('outcome', `unhandled ${show(ctx.unhandled[0])}`)
  ctx.count(`failed:${b.failed || 'no'}`)
  return { input: whole, target: ctx.variant.target }
}
