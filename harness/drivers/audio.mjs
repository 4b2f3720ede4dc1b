// Replays AudioStream into streamSpeech and streamTranscription; after every operation the outputs and the promise are
// compared with the model.
import { APICallError, InvalidResponseError, JSONParseError, RemoteAPIError } from 'repo:packages/shared'
import * as sp from 'repo:packages/stream-speech'
import * as tr from 'repo:packages/stream-transcription'
import { bytesOf, collect, controlledBody, eq, settle, show, splitBytes, sseEvent, streamResponse, text, until, watchPromise } from '../core.mjs'
import '../polyfill.mjs'

export const run = async (b, ctx) => {
  const r = ctx.rng
  const speech = b.kind === 'speech'
  const watch = ctx.variant.watch
  // ---------------------------------------------------------------- concrete events
  const value = new Map(); const raw = new Map()
  let n = 0
  for (const x of b.h) {
    if (x.o !== 'event') continue
    n++
    switch (x.k) {
      case 'delta': case 'blank': {
        if (speech) { const v = x.k === 'blank' ? new Uint8Array(0) : new Uint8Array(Array.from({ length: 1 + r.int(9) }, () => r.int(256))); value.set(n, v); raw.set(n, { audio: Buffer.from(v).toString('base64'), type: 'speech.audio.delta', ...(r.bool(0.2) ? { extra: 1 } : {}) }) }
        else { const v = x.k === 'blank' ? '' : text(r, `t${n}`); value.set(n, v); raw.set(n, { delta: v, type: 'transcript.text.delta', ...(r.bool(0.3) ? { logprobs: [] } : {}) }) }
        break
      }
      case 'done': raw.set(n, speech ? r.pick([{ type: 'speech.audio.done' }, { type: 'speech.audio.done', usage: null }]) : { text: 'everything', type: 'transcript.text.done' }); break
      case 'usage': raw.set(n, speech ? { type: 'speech.audio.done', usage: { input_tokens: r.int(9), output_tokens: r.int(99), total_tokens: r.int(99) } } : { text: 'x', type: 'transcript.text.done', usage: { total_tokens: 1 } }); break
      case 'unknown': raw.set(n, r.pick([{ type: 'keepalive' }, { foo: 1 }, { type: 'transcript.text.segment' }, { audio: 'AA==', type: 'speech.audio.other' }])); break
      case 'badaudio': raw.set(n, { audio: r.pick(['***', 'A', undefined, 7]), type: 'speech.audio.delta' }); break
    }
  }
  const wire = (i, k) => (k === 'badjson' ? `data: ${r.pick(['{', 'nope'])}\n\n` : k === 'remote' ? `data: {"error":{"message":"é"}}\n\n` : sseEvent(JSON.stringify(raw.get(i)), r))
  const body = controlledBody()
  const errs = { cut: r.pick([new Error('connection lost'), new DOMException('gone', 'AbortError')]), net: r.pick([new TypeError('fetch failed'), new DOMException('gone', 'AbortError')]) }
  const ask = b.h[0].k
  const httpBody = r.pick(['{"error":"nope"}', '', '<html>'])
  let requests = 0
  const options = {
    baseURL: 'http://api.test/v1',
    fetch: async () => {
      requests++
      await settle(r.int(3))
      if (ask === 'net') throw errs.net
      if (ask === 'http') return new Response(httpBody, { status: r.pick([400, 401, 429, 500]) })
      if (ask === 'empty') return new Response(null)
      return streamResponse(body.stream)
    },
    model: 'm',
    ...(speech ? { input: 'say', voice: 'v' } : { file: new Blob(['abc']) }),
  }
  const isErr = (e) => {
    switch (b.err) {
      case 'net': case 'cut': return e === errs[b.err]
      case 'http': return APICallError.isInstance(e) && e.responseBody === httpBody
      case 'empty': return InvalidResponseError.isInstance(e) && e.reason === 'empty_body'
      case 'badjson': return JSONParseError.isInstance(e)
      case 'remote': return RemoteAPIError.isInstance(e)
      case 'badaudio': return e instanceof Error
      default: return false
    }
  }

  let res; let outs = {}; let prom; let failed
  const say = () => `${b.kind} after ${b.h.map(x => `${x.o}${x.k ? `:${x.k}` : ''}`).join(' ')}`
  const start = () => {
    if (speech) return (async () => { try { res = await sp.streamSpeech(options) } catch (e) { failed = e } })()
    try { res = tr.streamTranscription(options) } catch (e) { failed = e }
  }
  const first = start()
  const attach = () => {
    if (!res || prom) return
    const p = speech ? res.usage : res.text
    if (watch !== 'streams') prom = watchPromise(p); else prom = { state: 'unwatched' }
    if (watch !== 'promise' || speech) outs.full = collect(res.fullStream)
    if (!speech && watch !== 'promise') outs.text = collect(res.textStream)
  }
  if (!speech) attach()

  n = 0
  for (const [i, x] of b.h.entries()) {
    if (x.o === 'ask') {
      await first
      await until(() => (speech ? res || failed : requests > 0), { extra: 4 })
      attach()
      if (speech && x.k !== 'ok') {
        if (!failed || !isErr(failed)) ctx.diff('failure', `${say()}: the call ${failed ? `failed with ${show(failed)}` : 'succeeded'}`)
        break
      }
      if (failed) { ctx.diff('outcome', `${say()}: the call failed with ${show(failed)}`); return }
    }
    else if (x.o === 'event') { n++; for (const c of splitBytes(bytesOf(wire(n, x.k)), r)) { body.push(c); if (r.bool(0.3)) await settle(1) } }
    else if (x.o === 'cut') body.error(errs.cut)
    else if (x.o === 'close') { if (r.bool(0.3)) body.push(bytesOf(r.pick(['data: [DONE]\n\n', ': bye\n\n', 'data: {"unfinished']))); body.close() }
    else if (x.o === 'cancel') { if (!outs[x.k]) { if (watch !== 'promise') ctx.diff('outcome', 'no such output'); else return } await outs[x.k].cancel() }
    await settle(3)
    await until(() => matches(x), { max: 30, extra: 0 })
    compare(i, x)
  }
  if (!failed) {
    if (prom.state === 'resolved') {
      const e = raw.get(b.at)?.usage
      const want = speech ? (b.at ? { inputTokens: e.input_tokens, outputTokens: e.output_tokens, totalTokens: e.total_tokens } : undefined) : b.log.map(i => value.get(i)).join('')
      if (!eq(prom.value, want)) ctx.diff('value', `${say()}: the promise gave ${show(prom.value)}, expected ${show(want)}`)
    }
    if (prom.state === 'rejected' && b.err && !isErr(prom.error)) ctx.diff('failure', `${say()}: the promise failed with ${show(prom.error)}, expected ${b.err}`)
    for (const [k, c] of Object.entries(outs)) if (c.state === 'errored' && !isErr(c.error)) ctx.diff('failure', `${say()}: ${k} failed with ${show(c.error)}, expected ${b.err}`)
  }
  await settle(2)
  if (requests !== 1) ctx.diff('outcome', `${requests} requests`)
  if (ctx.unhandled.length > 0) ctx.diff('unhandled', `${say()}: unhandled rejection ${show(ctx.unhandled[0])}`)
  ctx.count(`${b.kind}:${b.err || 'ok'}`)
  return { h: b.h, watch }

  function matches(x) {
    if (prom && prom.state !== 'unwatched' && (prom.state === 'pending') !== (x.prom === 'pending')) return false
    return Object.entries(outs).every(([k, c]) => c.state === x.outs[k] && c.items.length >= x.got[k].length)
  }
  function compare(i, x) {
    const at = `${say()}, at operation ${i + 1}`
    for (const [k, c] of Object.entries(outs)) {
      const ev = x.got[k].map(j => (speech || k === 'text' ? value.get(j) : raw.get(j)))
      // what was delivered immediately before a failure may be dropped by the stream, unless it was read already
      if (!eq(c.items, ev)) ctx.diff('items', `${at}: ${k} delivered ${show(c.items)}, expected ${show(ev)}`)
      if (c.state !== x.outs[k]) ctx.diff(x.outs[k] === 'open' || c.state === 'open' ? 'settle' : 'failure', `${at}: ${k} is ${c.state} ${show(c.error)}, expected ${x.outs[k]}`)
    }
    if (!prom || prom.state === 'unwatched') return
    const want = { failed: 'rejected', nothing: 'resolved', pending: 'pending', value: 'resolved' }[x.prom]
    if (prom.state !== want) ctx.diff('settle', `${at}: the promise is ${prom.state} ${show(prom.error ?? prom.value)}, expected ${want}`)
  }
}
