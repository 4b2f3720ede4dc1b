// Replays Media: starts and answers calls in the order the model chose, checks each request and each result.
import { embed, embedMany } from 'repo:packages/embed'
import { generateSpeech } from 'repo:packages/generate-speech'
import { generateTranscription } from 'repo:packages/generate-transcription'
import { listModels, retrieveModel } from 'repo:packages/model'
import { APICallError } from 'repo:packages/shared'
import { streamSpeech } from 'repo:packages/stream-speech'
import { streamTranscription } from 'repo:packages/stream-transcription'
import { bytesOf, deferred, eq, settle, show, splitBytes, sseEvent, text, until, watchPromise } from '../core.mjs'
import '../polyfill.mjs'

const value = (r, o, i) => {
  switch (o) {
    case 'dimensions': return r.pick([0, 1, 256])
    case 'encodingFormat': return r.pick(['float', 'base64'])
    case 'file': return new Blob([new Uint8Array(Array.from({ length: r.int(20) }, () => r.int(256)))], { type: r.pick(['', 'audio/wav']) })
    case 'fileName': return r.pick([`f${i}.mp3`, 'a b.wav', 'é.ogg', ''])
    case 'input': return text(r, `in${i}`)
    case 'instructions': return r.pick(['', text(r, `slowly${i}`)])
    case 'language': return r.pick(['en', 'fr', '', 'en-US', 'zh-Hant', 'PT'])
    case 'model': return r.pick([`m${i}`, `org/m${i}`, `m${i}:free`])
    case 'prompt': return r.pick(['', text(r, `hint${i}`)])
    case 'responseFormat': return r.pick(['mp3', 'pcm', 'wav', 'opus', 'flac'])
    case 'speed': return r.pick([0, 0.25, 1, 4])
    case 'temperature': return r.pick(['0', '0.5', '', '1.0', '.2'])
    case 'user': return r.pick([`u${i}`, `U ${i} é`])
    case 'voice': return `v${i}`
    default: throw new Error(o)
  }
}
const stringify = v => (v instanceof Blob ? v : String(v))

export const run = async (b, ctx) => {
  const r = ctx.rng
  const say = i => `call ${i + 1} (${b.calls[i].kind} ${b.calls[i].opts.join(',')}) of ${b.h.map(x => `${x.o}${x.i}`).join(' ')}`
  const N = b.calls.length
  const requests = Array.from({ length: N }, () => [])
  const answers = Array.from({ length: N }, () => deferred())
  const own = ctx.variant.fetch === 'own'
  const reach = i => (url, init) => { requests[i].push({ init: init ?? {}, url: String(url) }); return answers[i].promise }
  const before = globalThis.fetch
  if (!own) globalThis.fetch = (url, init) => { const m = String(url).match(/^http:\/\/h(\d+)\.test/); return reach(Number(m[1]))(url, init) }
  const sharedHeaders = Object.freeze({ 'x-shared': 'yes' })
  const sharedSignal = new AbortController().signal

  const made = b.calls.map((c, i) => {
    const given = {}
    for (const o of ['model', 'input', 'voice', 'file'])
      if (c.fields.some(f => f.from === o) || o === 'model') given[o] = c.kind === 'embedMany' && o === 'input' ? Array.from({ length: r.bool(0.7) ? c.n : r.int(4) }, (_, j) => (j > 0 && r.bool(0.2) ? text(r, 'again') : r.bool(0.2) ? 'again' : text(r, `in${i}.${j}`))) : value(r, o, i)
    if (c.kind === 'listModels') delete given.model
    for (const o of c.opts) {
      if (o === 'json' || o === 'verbose') given.responseFormat = o === 'json' ? 'json' : 'verbose_json'
      else if (o === 'word' || o === 'segment') given.timestampGranularities = o
      else given[o] = value(r, o, i)
    }
    const apiKey = r.bool(0.7) ? `key${i}` : undefined
    const options = {
      ...given,
      ...(apiKey ? { apiKey } : {}),
      baseURL: `http://h${i}.test/v1${r.pick(['', '/'])}`,
      ...(own ? { fetch: reach(i) } : {}),
      ...(r.bool() ? { headers: r.bool() ? sharedHeaders : { 'x-own': `o${i}` } } : {}),
      ...(r.bool() ? { abortSignal: sharedSignal } : {}),
      // options nobody gave
      ...(r.bool(0.3) ? { language: given.language } : {}),
    }
    return { apiKey, given, options: r.bool() ? Object.freeze(options) : options }
  })
  const answer = b.calls.map((c, i) => {
    const items = Array.from({ length: c.n }, (_, j) => {
      switch (c.kind) {
        case 'embed': case 'embedMany': return made[i].given.encodingFormat === 'base64' ? `AAAA${i}${j}` : Array.from({ length: 1 + r.int(4) }, () => r.pick([i, j, -0.5, 1e-9, r.next()]))
        case 'listModels': return { created: r.int(99), id: `m${i}.${j}`, object: 'model', owned_by: r.pick(['', `o${i}`]), ...(r.bool() ? { extra: { deep: [j] } } : {}) }
        case 'speech': case 'streamSpeech': return new Uint8Array(Array.from({ length: r.int(50) }, () => r.int(256)))
        case 'streamTranscription': return text(r, `t${i}.${j}`)
        case 'transcription': return r.pick([{ text: text(r, `t${i}`) }, { duration: 1.5, language: 'en', segments: [{ id: 0, text: 'x' }], text: '' }, { text: 'w', words: [{ end: 1, start: 0, word: 'w' }], task: null }])
        default: return { created: 1, id: `m${i}`, object: 'model', owned_by: '', ...(r.bool() ? { extra: null } : {}) }
      }
    })
    const usage = c.usage ? { prompt_tokens: r.int(99), total_tokens: 100 + i, ...(r.bool(0.2) ? { more: 1 } : {}) } : undefined
    return { items, usage }
  })
  const respond = (i) => {
    const c = b.calls[i]; const { items, usage } = answer[i]
    if (c.fate === 'http') return new Response(`no ${i}`, { status: 400 + i })
    switch (c.kind) {
      case 'embed': case 'embedMany': return new Response(JSON.stringify({ data: items.map((embedding, index) => ({ embedding, index, object: 'embedding' })), model: 'served', object: 'list', ...(usage ? { usage } : {}) }))
      case 'listModels': return new Response(JSON.stringify({ data: items, object: 'list' }))
      case 'retrieveModel': case 'transcription': return new Response(JSON.stringify(items[0], null, r.pick([0, 2])))
      case 'speech': return new Response(new ReadableStream({ async start(k) { for (const x of items) { await settle(1); if (x.length > 0) k.enqueue(x) } k.close() } }))
      default: {
        const events = c.kind === 'streamSpeech'
          ? [...items.map(x => ({ audio: Buffer.from(x).toString('base64'), type: 'speech.audio.delta' })), { type: 'speech.audio.done', ...(usage ? { usage: { input_tokens: usage.prompt_tokens, output_tokens: 1, total_tokens: usage.total_tokens } } : {}) }]
          : [...items.map(delta => ({ delta, type: 'transcript.text.delta' })), { text: 'all of it', type: 'transcript.text.done' }]
        const chunks = events.flatMap(e => splitBytes(bytesOf(sseEvent(JSON.stringify(e), r)), r))
        return new Response(new ReadableStream({ async start(k) { for (const x of chunks) { if (r.bool(0.2)) await settle(1); k.enqueue(x) } k.close() } }))
      }
    }
  }
  const drain = async (s) => { const out = []; for await (const x of s) out.push(x); return out }
  const invoke = async (i) => {
    const { options } = made[i]
    switch (b.calls[i].kind) {
      case 'embed': return embed(options)
      case 'embedMany': return embedMany(options)
      case 'listModels': return listModels(options)
      case 'retrieveModel': return retrieveModel(options)
      case 'speech': return generateSpeech(options)
      case 'transcription': return generateTranscription(options)
      case 'streamSpeech': { const s = await streamSpeech(options); const parts = await drain(s.fullStream); return { parts, usage: await s.usage } }
      case 'streamTranscription': { const s = streamTranscription(options); s.text.catch(() => {}); const [full, parts] = await Promise.all([drain(s.fullStream), drain(s.textStream)]); return { full, parts, text: await s.text } }
    }
  }
  const want = (i) => {
    const { items, usage } = answer[i]; const { given } = made[i]
    switch (b.calls[i].kind) {
      case 'embed': return { embedding: items[0], input: given.input, usage }
      case 'embedMany': return { embeddings: b.results[i].items.map(j => items[j - 1]), input: given.input, usage }
      case 'listModels': return b.results[i].items.map(j => items[j - 1])
      case 'streamSpeech': return { parts: items, usage: usage && { inputTokens: usage.prompt_tokens, outputTokens: 1, totalTokens: usage.total_tokens } }
      case 'streamTranscription': return { full: items.map(delta => ({ delta, type: 'transcript.text.delta' })), parts: items, text: items.join('') }
      case 'speech': return new Uint8Array(Buffer.concat(items))
      default: return items[0]
    }
  }

  try {
    const calls = []
    for (const x of b.h) {
      const i = x.i - 1
      if (x.o === 'start') { calls[i] = watchPromise(invoke(i)); await until(() => requests[i].length > 0, { extra: r.int(3) }) }
      else { answers[i].resolve(respond(i)); await until(() => calls[i].state !== 'pending', { extra: r.int(3), max: 400 }) }
      x.st.forEach((s, j) => {
        const exp = { asked: 'pending', done: 'resolved', failed: 'rejected' }[s]
        if (calls[j].state !== exp) ctx.diff('outcome', `${say(j)}: the call is ${calls[j].state} ${show(calls[j].error ?? calls[j].value)} after ${x.o}${x.i}, expected ${exp}`)
      })
    }
    for (const [i, c] of b.calls.entries()) {
      const call = calls[i]
      if (call.state === 'rejected' && !(APICallError.isInstance(call.error) && call.error.responseBody === `no ${i}`)) ctx.diff('result', `${say(i)}: failed with ${show(call.error)}`)
      if (call.state === 'resolved') {
        const got = c.kind === 'speech' ? (call.value instanceof ArrayBuffer ? new Uint8Array(call.value) : call.value) : call.value
        if (!eq(got, want(i))) ctx.diff('result', `${say(i)}: gave ${show(got)}, expected ${show(want(i))}`)
      }
      await checkRequest(i, c)
    }
  }
  finally { globalThis.fetch = before }
  if (ctx.unhandled.length > 0) ctx.diff('unhandled', `unhandled rejection ${show(ctx.unhandled[0])}`)
  b.calls.forEach(c => ctx.count(`${c.kind}:${c.fate}`))
  return { h: b.h, calls: b.calls.map(c => [c.kind, c.opts]) }

  async function checkRequest(i, c) {
    if (requests[i].length !== 1) { ctx.diff('request', `${say(i)}: ${requests[i].length} requests`); return }
    const { init, url } = requests[i][0]; const { apiKey, given, options } = made[i]
    const wantURL = `http://h${i}.test/v1/${c.path.replace('+model', given.model)}`
    if (url !== wantURL) ctx.diff('request', `${say(i)}: went to ${url}, expected ${wantURL}`)
    if ((init.method ?? 'GET') !== c.method) ctx.diff('request', `${say(i)}: method ${init.method}`)
    if (init.signal !== options.abortSignal) ctx.diff('request', `${say(i)}: signal ${init.signal}`)
    const h = Object.fromEntries(new Headers(init.headers))
    const wantH = { ...(apiKey ? { authorization: `Bearer ${apiKey}` } : {}), ...(c.method === 'POST' && !c.form ? { 'content-type': 'application/json' } : {}), ...options.headers }
    if (!eq(h, wantH)) ctx.diff('request', `${say(i)}: headers ${show(h)}, expected ${show(wantH)}`)
    if (c.method === 'GET') { if (init.body !== undefined) ctx.diff('request', `${say(i)}: a body ${show(init.body)}`); return }
    const exp = Object.fromEntries(c.fields.map(f => [f.name, f.from.startsWith('=') ? f.from.slice(1) : given[f.from]]))
    if (!c.form) {
      let got; try { got = JSON.parse(init.body) } catch { got = init.body }
      if (!eq(got, exp)) ctx.diff('request', `${say(i)}: body ${show(got)}, expected ${show(exp)}`)
      return
    }
    if (!(init.body instanceof FormData)) { ctx.diff('request', `${say(i)}: the body is no form`); return }
    const got = [...init.body.entries()]
    const names = got.map(x => x[0]).sort()
    if (!eq(names, Object.keys(exp).sort())) ctx.diff('request', `${say(i)}: fields ${names}, expected ${Object.keys(exp).sort()}`)
    for (const [k, v] of got) {
      if (k === 'file') {
        const same = v instanceof Blob && Buffer.from(await v.arrayBuffer()).equals(Buffer.from(await given.file.arrayBuffer()))
        if (!same) ctx.diff('request', `${say(i)}: another file was sent`)
        if (v.name !== (given.fileName ?? 'blob')) ctx.diff('request', `${say(i)}: the file is called ${v.name}, expected ${given.fileName}`)
        if (v.type !== given.file.type) ctx.diff('request', `${say(i)}: the file has type ${v.type}`)
      }
      else if (v !== stringify(exp[k])) ctx.diff('request', `${say(i)}: field ${k} is ${show(v)}, expected ${show(exp[k])}`)
    }
  }
}
