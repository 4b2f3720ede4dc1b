// Replays Images into generateImage: the harness answers the request and every download in the order the model chose, and
// after each operation compares the state of the call, the requests seen and finally the images.
import { generateImage } from 'repo:packages/generate-image'
import { APICallError, InvalidResponseError, JSONParseError } from 'repo:packages/shared'
import { bytesOf, controlledBody, deferred, eq, settle, show, text, until, watchPromise } from '../core.mjs'
import '../polyfill.mjs'

// the first bytes of real files of each format
const le = n => [n & 255, (n >> 8) & 255, (n >> 16) & 255, n >>> 24]
const FORMATS = {
  avif: r => [0, 0, 0, r.pick([0x18, 0x1C, 0x20, 0x24]), ...bytesOf('ftypavif'), 0, 0, 0, 0, ...bytesOf('avifmif1miafMA1B')],
  gif: r => [...bytesOf(r.pick(['GIF89a', 'GIF87a'])), r.int(256), 0],
  jpeg: r => [0xFF, 0xD8, 0xFF, r.pick([0xE0, 0xE1, 0xDB, 0xEE]), 0, 16],
  png: () => [0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A, 0, 0, 0, 13],
  webp: r => [...bytesOf('RIFF'), ...le(r.int(1 << 24)), ...bytesOf('WEBPVP8 ')],
}
const MIME = { avif: ['image/avif'], gif: ['image/gif'], jpeg: ['image/jpg', 'image/jpeg'], png: ['image/png'], webp: ['image/webp'] }

export const run = async (b, ctx) => {
  const r = ctx.rng
  const content = b.items.map((k) => {
    const format = r.pick(Object.keys(FORMATS))
    return { format, kind: k, raw: Buffer.from([...FORMATS[format](r), ...Array.from({ length: r.int(40) }, () => r.int(256))]) }
  })
  const urls = content.map((c, i) => (r.bool(0.15) && i > 0 ? 'https://files.test/same.png' : `https://files.test/${i}.${c.format}?sig=a%2Fb`))
  const item = (c, i) => {
    const extra = r.bool(0.3) ? { revised_prompt: 'nicer' } : {}
    switch (c.kind) {
      case 'inline': return { b64_json: c.raw.toString('base64'), ...extra, ...(r.bool(0.2) ? { url: null } : {}) }
      case 'link': return { url: urls[i], ...extra, ...(r.bool(0.2) ? { b64_json: null } : {}) }
      case 'both': return { b64_json: c.raw.toString('base64'), url: urls[i] }
      default: return r.pick([{}, { b64_json: null }, { url: null }, { revised_prompt: 'x' }, { url: 5 }])
    }
  }
  const abort = new AbortController(); const reason = r.pick([new Error('enough'), new DOMException('aborted', 'AbortError')])
  const given = r.bool(0.7) || b.h.some(x => x.o === 'abort' || x.k === 'abort')
  const errs = new Map()
  const err = k => { if (!errs.has(k)) errs.set(k, r.pick([new TypeError(`fetch failed ${k}`), new Error(`boom ${k}`)])); return errs.get(k) }
  const asked = deferred()
  let api = 0; const links = []
  const secret = `sk-${r.int(1e9)}`
  const options = {
    ...(r.bool(0.8) ? { apiKey: secret } : {}),
    baseURL: 'https://api.test/v1/',
    fetch: (url, init) => {
      const u = String(url)
      if (u.startsWith('https://api.test/')) {
        api++
        if (u !== 'https://api.test/v1/images/generations') ctx.diff('requests', `the request went to ${u}`)
        if (init.method !== 'POST') ctx.diff('requests', `the request was a ${init.method}`)
        const want = { prompt: options.prompt, model: 'm', ...(options.n !== undefined ? { n: options.n } : {}), ...(options.size ? { size: options.size } : {}), ...(options.responseFormat ? { response_format: options.responseFormat } : {}) }
        if (!eq(JSON.parse(init.body), want)) ctx.diff('requests', `the request asked for ${init.body}, expected ${show(want)}`)
        return asked.promise
      }
      const d = { answer: deferred(), body: controlledBody(), init: init ?? {}, url: u }
      links.push(d)
      if (d.init.signal !== options.abortSignal) ctx.diff('requests', `a download got ${d.init.signal ? 'another' : 'no'} signal`)
      const sent = JSON.stringify([...new Headers(d.init.headers)]) + String(d.init.body ?? '') + u
      if (sent.includes(secret) || sent.includes('mine')) ctx.diff('requests', `a download carried credentials: ${sent}`)
      if ((d.init.method ?? 'GET') !== 'GET') ctx.diff('requests', `a download was a ${d.init.method}`)
      d.init.signal?.addEventListener('abort', () => { d.answer.reject(d.init.signal.reason); try { d.body.error(d.init.signal.reason) } catch {} })
      return d.answer.promise
    },
    headers: { 'x-own': 'mine' },
    model: 'm',
    prompt: text(r, 'a cat'),
    ...(given ? { abortSignal: abort.signal } : {}),
    ...(r.bool() ? { n: b.items.length } : {}),
    ...(r.bool() ? { responseFormat: r.pick(['b64_json', 'url']) } : {}),
    ...(r.bool() ? { size: '64x64' } : {}),
  }
  const call = watchPromise(generateImage(options))
  const of = new Map(content.map((c, i) => [i, c]).filter(([, c]) => c.kind === 'link').map(([i], n) => [i, n])) // item -> download number
  const say = () => `images ${b.items.join(' ')} after ${b.h.map(x => `${x.o}${x.i || ''}:${x.k}`).join(' ')}`

  for (const x of b.h) {
    await settle(1)
    if (x.o === 'ask') {
      await until(() => api > 0)
      switch (x.k) {
        case 'ok': asked.resolve(new Response(JSON.stringify({ created: 1, data: content.map(item) }))); break
        case 'net': asked.reject(err('net')); break
        case 'http': asked.resolve(new Response('{"error":"no"}', { status: r.pick([400, 401, 429, 500]) })); break
        case 'empty': asked.resolve(new Response(null)); break
        case 'badjson': asked.resolve(new Response(r.pick(['{"data":[', 'oops']))); break
        case 'abort': abort.abort(reason); asked.reject(reason); break
      }
      if (x.k === 'ok') await until(() => links.length >= of.size, { max: 50 })
      if (x.k === 'ok' && links.length !== of.size) { ctx.diff('requests', `${say()}: ${links.length} downloads started, expected ${of.size}`); return }
    }
    else if (x.o === 'abort') { abort.abort(reason) }
    else {
      const i = x.i - 1; const d = links[of.get(i)]
      if (d.url !== urls[i]) { ctx.diff('requests', `${say()}: downloaded ${d.url}, expected ${urls[i]}`); return }
      if (x.o === 'head') {
        if (x.k === 'ok') d.answer.resolve(new Response(d.body.stream, { headers: { 'content-type': MIME[content[i].format].at(-1) + r.pick(['', '', '; charset=binary', ';q=1']) } }))
        else if (x.k === 'net') d.answer.reject(err(`net${x.i}`))
        else if (x.k === 'http') d.answer.resolve(new Response(`gone ${x.i}`, { status: r.pick([403, 404, 500]) }))
        else if (x.k === 'empty') d.answer.resolve(new Response(null, { status: 204 }))
      }
      else if (x.k === 'ok') {
        const cut = r.int(content[i].raw.length + 1)
        for (const p of [content[i].raw.subarray(0, cut), content[i].raw.subarray(cut)]) if (p.length > 0) { d.body.push(new Uint8Array(p)); await settle(1) }
        d.body.close()
      }
      else { d.body.push(new Uint8Array(content[i].raw.subarray(0, 2))); await settle(1); d.body.error(err(`cut${x.i}`)) }
    }
    await until(() => (call.state === 'pending') === (x.out === 'pending'), { extra: 2, max: 200 })
    const want = { done: 'resolved', failed: 'rejected', pending: 'pending' }[x.out]
    if (call.state !== want) { ctx.diff('settle', `${say()}: the call is ${call.state} ${show(call.error ?? call.value)} after ${x.o}${x.i || ''}:${x.k}, expected ${want}`); return }
  }
  await settle(3)
  if (call.state === 'resolved') {
    const { image, images } = call.value
    if (!Array.isArray(images) || images.length !== content.length) ctx.diff('images', `${say()}: ${images?.length} images, expected ${content.length}`)
    else {
      content.forEach((c, i) => {
        const im = images[i]
        if (!MIME[c.format].includes(im.mimeType)) ctx.diff('mime', `${say()}: image ${i} (${c.kind} ${c.format}, ${c.raw.subarray(0, 12).toString('base64')}) is called ${im.mimeType}`)
        const [head, data] = im.base64?.split(';base64,') ?? []
        if (data !== c.raw.toString('base64') || head.split(';')[0] !== `data:${im.mimeType}`) ctx.diff('images', `${say()}: image ${i} is ${show(im.base64)}, expected the data URL of ${c.raw.toString('base64')}`)
      })
      if (!eq(image, images[0])) ctx.diff('images', `${say()}: the first image is ${show(image)}`)
    }
  }
  else {
    const e = call.error; const k = b.err
    const m = k.match(/^([a-z]+)(\d+)$/)
    const ok = k === 'neither' ? e instanceof Error && !/TypeError|Syntax/.test(e.name)
      : k === 'abort' ? e === reason
        : k === 'badjson' ? JSONParseError.isInstance(e)
          : k.startsWith('empty') ? InvalidResponseError.isInstance(e)
            : k.startsWith('http') ? APICallError.isInstance(e) && e.responseBody === (m ? `gone ${m[2]}` : '{"error":"no"}')
              : e === err(k)
    if (!ok) ctx.diff('failure', `${say()}: failed with ${show(e)}, expected ${k}`)
  }
  if (api !== 1) ctx.diff('requests', `${say()}: ${api} requests`)
  if (ctx.unhandled.length > 0) ctx.diff('unhandled', `${say()}: unhandled rejection ${show(ctx.unhandled[0])}`)
  ctx.count(b.out === 'done' ? 'done' : b.err.replace(/\d+$/, ''))
  if (content.some(c => c.kind === 'link')) ctx.count('linked')
  return { h: b.h, items: b.items }
}
