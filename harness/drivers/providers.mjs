// Replays Providers: creates providers, takes handles, edits them, and performs requests through them in the order of
// the behaviour; after every operation every handle is compared with what its own creation gave it.
import * as all from 'repo:packages-ext/providers'
import * as create from 'repo:packages-ext/providers/src/create.ts'
import * as special from 'repo:packages-ext/providers/src/special/create.ts'
import * as specialAll from 'repo:packages-ext/providers/src/special/index.ts'
import * as kit from 'repo:packages-ext/providers/src/utils/index.ts'
import { APICallError } from 'repo:packages/shared'
import * as emb from 'repo:packages/embed'
import * as gi from 'repo:packages/generate-image'
import * as gsp from 'repo:packages/generate-speech'
import * as gt from 'repo:packages/generate-text'
import * as gtr from 'repo:packages/generate-transcription'
import * as mdl from 'repo:packages/model'
import { deferred, eq, settle, show, until, watchPromise } from '../core.mjs'
import '../polyfill.mjs'

const CAPS = ['chat', 'embed', 'image', 'model', 'speech', 'transcription']
const PATHS = { chat: 'chat/completions', embed: 'embeddings', image: 'images/generations', model: 'models', speech: 'audio/speech', transcription: 'audio/transcriptions' }
const MODELS = ['gpt-x', 'org/model:7b', 'modèle', 'm', '@cf/Org/Model-7B-Instruct', 'A B']
const strip = o => Object.fromEntries(Object.entries(o ?? {}).filter(([, v]) => v !== undefined && typeof v !== 'function'))

export const run = async (b, ctx) => {
  const r = ctx.rng
  const table = ctx.job.table
  const generated = table.filter(t => t.create.startsWith('create') && !['createAnthropic', 'createFeatherless', 'createOpenRouter', 'createTogetherAI'].includes(t.create))
  const provs = []; const handles = []; const calls = []
  const previous = globalThis.fetch
  const requests = []
  globalThis.fetch = (...a) => { const q = { args: a, gate: deferred() }; requests.push(q); return q.gate.promise }
  const kitOptions = []

  const base = (t) => {
    if (t && r.bool(0.3)) return [undefined, t.base]
    const s = r.pick(['http://api.test/v1', 'https://h:8080/a/b/', 'http://127.0.0.1/', 'http://api.test/audio/speech/models/v1/'])
    const v = r.bool(0.8) ? s : new URL(s)
    return [v, v]
  }
  const make = async (kind, n) => {
    const key = `key-${n}-${r.int(1e6)}`
    switch (kind) {
      case 'plain': case 'embedder': case 'full': {
        const t = kind === 'full' ? table.find(x => x.create === 'createOpenAI') : r.pick(generated.filter(x => kind !== 'embedder' || x.caps.includes('embed')))
        const [given, want] = base(t)
        return { caps: t.caps, cfg: () => ({ apiKey: key, baseURL: want }), name: t.create, obj: create[t.create](key, given) }
      }
      case 'instance': {
        const t = r.pick(table.filter(x => x.env))
        return { caps: t.caps, cfg: () => ({ apiKey: `env-${t.env}`, baseURL: t.base }), name: t.name, obj: all[t.name], special: t.name }
      }
      case 'anthropic': { const [given, want] = base(table.find(x => x.create === 'createAnthropic')); return { caps: ['chat', 'model'], cfg: (cap, x) => ({ apiKey: key, baseURL: want, ...x }), extra: () => r.pick([{ thinking: { budget_tokens: r.int(9999), type: 'enabled' } }, {}, { thinking: undefined }]), name: kind, obj: create.createAnthropic(key, given) } }
      case 'featherless': case 'together': { const c = kind === 'together' ? 'createTogetherAI' : 'createFeatherless'; const [given, want] = base(table.find(x => x.create === c)); return { caps: kind === 'together' ? ['chat', 'embed', 'model'] : ['chat', 'model'], cfg: () => ({ apiKey: key, baseURL: want }), fetchOn: ['model'], list: 'bare', name: kind, obj: create[c](key, given) } }
      case 'openrouter': {
        const [given, want] = base(table.find(x => x.create === 'createOpenRouter'))
        return {
          caps: ['chat', 'model'],
          cfg: (cap, x) => {
            const snake = { allowFallbacks: 'allow_fallbacks', dataCollection: 'data_collection', ignore: 'ignore', order: 'order', quantizations: 'quantizations', requireParameters: 'require_parameters', sort: 'sort' }
            return {
              apiKey: key, baseURL: want,
              ...(x?.extraHeaders ? { headers: x.extraHeaders instanceof Headers ? Object.fromEntries(x.extraHeaders) : { ...x.extraHeaders } } : {}),
              ...(x?.models ? { models: [...x.models] } : {}),
              ...(x?.transforms ? { transforms: [...x.transforms] } : {}),
              ...(x?.provider ? { provider: Object.fromEntries(Object.entries(x.provider).map(([k, v]) => [snake[k], v])) } : {}),
            }
          },
          extra: () => Object.fromEntries(Object.entries({ extraHeaders: r.bool() ? { 'HTTP-Referer': `http://ref-${r.int(99)}`, 'X-Title': 'title' } : new Headers({ 'HTTP-Referer': `http://ref-${r.int(99)}`, 'X-Title': 'title' }), models: [`m-${r.int(99)}`, 'b'], provider: { allowFallbacks: r.bool(), dataCollection: 'deny', ignore: [], order: ['Anthropic', 'OpenAI'], quantizations: ['int4'], requireParameters: false, sort: 'price' }, transforms: r.pick([[], ['middle-out']]) }).filter(() => r.bool(0.6)).map(([k, v]) => (k === 'provider' ? [k, Object.fromEntries(Object.entries(v).filter(() => r.bool(0.6)))] : [k, v]))),
          name: kind, obj: create.createOpenRouter(key, given),
        }
      }
      case 'azure': case 'azuretoken': {
        const version = r.pick([undefined, '2024-05-01-preview', 'v 1&x'])
        const resource = `res-${n}`
        const p = { caps: ['chat', 'embed', 'model', 'speech', 'transcription'], fetchOn: CAPS, name: kind, tokens: [] }
        const apiKey = kind === 'azure' ? key : () => { const d = deferred(); p.tokens.push(d); return d.promise }
        p.cfg = () => ({ baseURL: `https://${resource}.services.ai.azure.com/models/`, ...(kind === 'azure' ? { headers: { 'api-key': key } } : {}) })
        p.azure = { key, token: kind === 'azuretoken', version }
        p.obj = await special.createAzure({ apiKey, ...(version === undefined && r.bool() ? {} : { apiVersion: version }), resourceName: resource })
        return p
      }
      case 'player2': {
        const d = r.bool(0.3); const dk = d || r.bool(0.3); const [b1] = base(); const gk = `game-${n}`
        const obj = d ? (r.bool(0.5) ? specialAll.player2 ?? special.createPlayer2() : special.createPlayer2()) : dk ? special.createPlayer2(b1) : special.createPlayer2(b1, gk)
        return { caps: ['chat', 'speech'], cfg: () => ({ baseURL: d ? 'http://localhost:4315/v1/' : b1, headers: { 'player2-game-key': dk ? 'xsai' : gk } }), fetchOn: ['speech'], name: kind, obj, player2: true }
      }
      case 'workers': return { caps: ['chat', 'embed'], cfg: () => ({ apiKey: key, baseURL: `https://api.cloudflare.com/client/v4/accounts/acc-${n}/ai/v1/` }), name: kind, obj: special.createWorkersAI(key, `acc-${n}`) }
      case 'kit': {
        const [b1] = base()
        const o = { apiKey: key, baseURL: b1, ...(r.bool() ? { headers: { 'X-Kit': `${n}` } } : {}) }
        kitOptions.push([o, { ...o }])
        const withExtra = r.bool()
        const obj = withExtra
          ? kit.merge(kit.createChatProviderWithExtraOptions(o), kit.createEmbedProviderWithExtraOptions(o), kit.createModelProviderWithExtraOptions(o), kit.createSpeechProviderWithExtraOptions(o), kit.createTranscriptionProviderWithExtraOptions(o), kit.createImageProvider(o))
          : kit.merge(kit.createChatProvider(o), kit.createEmbedProvider(o), kit.createModelProvider(o), kit.createSpeechProvider(o), kit.createTranscriptionProvider(o), kit.createImageProvider(o))
        return { caps: CAPS, cfg: (cap, x) => ({ ...o, ...(withExtra && cap !== 'image' ? x : {}) }), extra: () => r.pick([{ temperature: r.int(9) }, { apiKey: 'extra-key' }, { seed: 1, user: 'u' }, {}]), name: kind, obj }
      }
    }
  }

  const GOOD = (c) => {
    const { p } = c.handle
    switch (c.handle.cap) {
      case 'chat': return JSON.stringify({ choices: [{ finish_reason: 'stop', index: 0, message: { content: `answer ${c.n}`, role: 'assistant' } }], usage: { completion_tokens: 1, prompt_tokens: 1, total_tokens: 2 } })
      case 'embed': return JSON.stringify({ data: [{ embedding: [c.n], index: 0 }], usage: { prompt_tokens: 1, total_tokens: 1 } })
      case 'image': return JSON.stringify({ data: [{ b64_json: 'iVBORw0KGgoA' }] })
      case 'model': return JSON.stringify(p.list === 'bare' || ['featherless', 'togetherai'].includes(p.special) ? [{ id: `id-${c.n}` }] : { data: [{ id: `id-${c.n}` }], object: 'list' })
      case 'speech': return p.player2 ? JSON.stringify({ data: Buffer.from([1, 2, c.n]).toString('base64') }) : Buffer.from([1, 2, c.n])
      case 'transcription': return JSON.stringify({ text: `text ${c.n}` })
    }
  }
  const OK = { chat: (v, c) => v.text === `answer ${c.n}`, embed: (v, c) => eq(v.embedding, [c.n]), image: v => v.images.length === 1, model: (v, c) => eq(v, [{ id: `id-${c.n}` }]), speech: (v, c) => Buffer.from(v).equals(Buffer.from([1, 2, c.n])), transcription: (v, c) => v.text === `text ${c.n}` }

  const checkHandles = (at) => {
    for (const [i, x] of handles.entries()) {
      const got = strip(x.value)
      if (!eq({ ...got, baseURL: String(got.baseURL) }, { ...x.want, baseURL: String(x.want.baseURL) })) { ctx.diff('handle', `${at}: handle ${i + 1} (${x.p.name} ${x.cap}) is ${show(got)}, expected ${show(x.want)}`); x.want = got }
      if ((typeof x.value.fetch === 'function') !== (x.p.fetchOn ?? []).includes(x.cap) && !x.p.special) ctx.diff('handle', `${at}: handle ${i + 1} (${x.p.name} ${x.cap}) ${x.value.fetch ? 'has' : 'lacks'} a fetch`)
      if (x.extraWas && !eq(x.extraWas, strip(x.extra))) ctx.diff('handle', `${at}: the caller's extra options were changed`)
    }
    for (const [o, was] of kitOptions) if (!eq(o, was)) ctx.diff('handle', `${at}: the options given to the creator were changed to ${show(o)}`)
  }

  // the request a call must have made
  const checkRequest = (c, q, at) => {
    const { cap, p } = c.handle
    const cfg = c.cfg
    const [input, init = {}] = q.args
    const b1 = String(cfg.baseURL); const root = b1.endsWith('/') ? b1 : `${b1}/`
    const url = new URL(root + (p.player2 && cap === 'speech' ? 'tts/speak' : PATHS[cap]))
    if (p.azure?.version !== undefined) url.searchParams.set('api-version', p.azure.version)
    if (String(new URL(input)) !== String(url)) ctx.diff('request', `${at}: sent to ${input}, expected ${url}`)
    if ((init.signal ?? undefined) !== c.signal) ctx.diff('request', `${at}: ${init.signal ? 'another signal' : 'no signal'} was passed on`)
    const hs = new Headers(init.headers)
    const auth = p.azure ? `Bearer ${p.azure.token ? c.token : p.azure.key}` : cfg.apiKey === undefined ? null : `Bearer ${cfg.apiKey}`
    if (hs.get('authorization') !== auth) ctx.diff('request', `${at}: authorization ${hs.get('authorization')}, expected ${auth}`)
    for (const [k, v] of Object.entries(cfg.headers ?? {})) if (hs.get(k) !== v) ctx.diff('request', `${at}: header ${k} is ${hs.get(k)}, expected ${v}`)
    for (const k of ['http-referer', 'x-title', 'api-key', 'player2-game-key', 'x-kit']) if (hs.has(k) && !Object.keys(cfg.headers ?? {}).some(x => x.toLowerCase() === k)) ctx.diff('request', `${at}: unexpected header ${k}`)
    if (cap === 'model') { if ((init.method ?? 'GET') !== 'GET' || init.body != null) ctx.diff('request', `${at}: not a plain GET`); return }
    if (cap === 'transcription') { if (init.body.get('model') !== cfg.model) ctx.diff('request', `${at}: model ${init.body.get('model')}`); return }
    const body = JSON.parse(init.body)
    const rest = Object.fromEntries(Object.entries(cfg).filter(([k]) => !['apiKey', 'baseURL', 'headers', 'fetch'].includes(k)))
    let want = { ...rest, ...c.sent }
    if (cap === 'chat') want.stream = false
    if (p.player2 && cap === 'speech') {
      const { input: text, response_format: f, speed, voice, ...more } = want
      want = { audio_format: f, play_in_app: false, speed: speed ?? 1, text, voice_ids: voice != null ? [voice] : [], ...more }
    }
    want = JSON.parse(JSON.stringify(want))
    if (!eq(body, want)) ctx.diff('request', `${at}: body ${show(body)}, expected ${show(want)}`)
  }

  try {
    for (const x of b.h) {
      const at = `${x.o}${x.c ? ` call ${x.c}` : ''}${x.h ? ` handle ${x.h}` : ''}`
      const before = requests.length
      if (x.o === 'create') {
        const p = await make(x.kind, provs.length + 1)
        provs.push(p)
        const caps = CAPS.filter(c => typeof p.obj[c] === 'function')
        if (!eq(caps, [...p.caps].sort())) ctx.diff('handle', `${p.name} offers ${caps}, documented ${p.caps}`)
      }
      else if (x.o === 'get') {
        const p = provs[x.p - 1]
        const model = x.cap === 'model' ? undefined : r.pick(MODELS)
        const extra = x.x === 'some' && p.extra ? p.extra() : undefined
        const want = { ...p.cfg(x.cap, x.cap === 'model' && p.name !== 'kit' ? undefined : extra), ...(model ? { model } : {}) }
        const extraWas = extra && strip(extra)
        const value = x.cap === 'model' ? (p.name === 'kit' ? p.obj.model(extra) : p.obj.model()) : extra === undefined ? p.obj[x.cap](model) : p.obj[x.cap](model, extra)
        if (handles.some(y => y.value === value)) ctx.diff('handle', `${at}: the same object was handed out twice`)
        handles.push({ cap: x.cap, extra, extraWas, p, value, want: strip(want) })
        ctx.count(`get:${p.special ? 'instance' : p.name.startsWith('create') ? 'generated' : p.name}:${x.cap}`)
      }
      else if (x.o === 'edit') {
        const y = handles[x.h - 1]
        const e = r.pick([{ model: 'edited' }, { apiKey: 'edited-key' }, { baseURL: 'http://edited.test/' }, { headers: { 'X-Edited': '1' } }])
        if (y.p.azure) { if (e.apiKey || e.headers) { delete e.apiKey; delete e.headers; e.model = 'edited' } }
        if (y.cap === 'model' && e.model) { delete e.model; e.baseURL = 'http://edited.test/' }
        Object.assign(y.value, e); Object.assign(y.want, e)
      }
      else if (x.o === 'issue') {
        const y = handles[x.h - 1]
        const c = { cfg: { ...y.want }, handle: y, n: calls.length + 1 }
        calls.push(c)
        const own = { chat: { messages: [{ content: 'q', role: 'user' }], ...(r.bool() ? { temperature: 0.5 } : {}) }, embed: { input: 'one' }, image: { prompt: 'p' }, model: {}, speech: { input: 'say', voice: r.pick(['nova', 'v']), ...(r.bool() ? { speed: r.pick([0, 2]) } : {}), ...(r.bool() ? { responseFormat: 'wav' } : {}) }, transcription: { file: new Blob(['abc']) } }[y.cap]
        c.sent = Object.fromEntries(Object.entries(own).map(([k, v]) => [k === 'responseFormat' ? 'response_format' : k, v]))
        const tokens = y.p.tokens?.length
        const fn = { chat: gt.generateText, embed: emb.embed, image: gi.generateImage, model: mdl.listModels, speech: gsp.generateSpeech, transcription: gtr.generateTranscription }[y.cap]
        // a call may bring its own signal
        c.signal = r.bool(0.5) ? new AbortController().signal : undefined
        c.outcome = watchPromise(fn({ ...y.value, ...own, ...(c.signal ? { abortSignal: c.signal } : {}) }))
        await until(() => requests.length > before || (y.p.tokens && y.p.tokens.length > tokens) || c.outcome.state !== 'pending', { extra: 1 })
        if (y.p.azure?.token) {
          if (y.p.tokens.length !== tokens + 1) ctx.diff('request', `${at}: ${y.p.tokens.length - tokens} access tokens were requested`)
          if (requests.length !== before) ctx.diff('request', `${at}: the request was sent before the token`)
          c.tokenGate = y.p.tokens[tokens]
        }
        else if (requests.length !== before + 1) { ctx.diff('request', `${at}: ${requests.length - before} requests; ${show(c.outcome.error)}`); return }
        else { c.q = requests[before]; checkRequest(c, c.q, at) }
      }
      else if (x.o === 'token') {
        const c = calls[x.c - 1]
        c.err = new Error('token service down')
        if (x.ok) { c.token = `token-${c.n}`; c.tokenGate.resolve(c.token) } else c.tokenGate.reject(c.err)
        await until(() => requests.length > before || c.outcome.state !== 'pending', { extra: 1 })
        if (x.ok) {
          if (requests.length !== before + 1) { ctx.diff('request', `${at}: ${requests.length - before} requests after the token; ${show(c.outcome.error)}`); return }
          c.q = requests[before]; checkRequest(c, c.q, at)
        }
        else if (c.outcome.error !== c.err) ctx.diff('request', `${at}: the token failed, the call ended with ${show(c.outcome)}`)
        else if (requests.length !== before) ctx.diff('request', `${at}: a request was sent without a token`)
      }
      else if (x.o === 'answer') {
        const c = calls[x.c - 1]
        const status = r.pick([400, 401, 404, 429, 500, 503]); const body = r.pick(['{"error":"nope é"}', '', 'plain', '[]'])
        const down = !x.ok && r.bool(0.25) ? new TypeError('network down') : undefined
        if (down) c.q.gate.reject(down)
        else c.q.gate.resolve(x.ok ? new Response(GOOD(c), { status: r.pick([200, 200, 200, 201, 203]) }) : new Response(body, { status }))
        await until(() => c.outcome.state !== 'pending', { extra: 1, max: 200 })
        const o = c.outcome
        if (x.ok) { if (o.state !== 'resolved' || !OK[c.handle.cap](o.value, c)) ctx.diff('answer', `${at} (${c.handle.p.name} ${c.handle.cap}): ${o.state} ${show(o.error ?? o.value)}`) }
        else if (down) { if (o.state !== 'rejected' || o.error !== down) ctx.diff('answer', `${at} (${c.handle.p.name} ${c.handle.cap}): a network failure became ${o.state} ${show(o.error ?? o.value)}`) }
        else if (!(o.state === 'rejected' && APICallError.isInstance(o.error) && o.error.statusCode === status && o.error.responseBody === body)) ctx.diff('answer', `${at} (${c.handle.p.name} ${c.handle.cap}): server error ${status} ${show(body)} became ${o.state} ${show(o.error ?? o.value)}`)
        if (requests.length !== before) ctx.diff('request', `${at}: another request was sent`)
        ctx.count(`answer:${c.handle.p.special ? 'instance' : c.handle.p.name.startsWith('create') ? 'generated' : c.handle.p.name}:${c.handle.cap}:${x.ok}`)
      }
      checkHandles(at)
    }
    // the fetch of a handle belongs to its holder, who may use it with headers of any form
    for (const y of handles.filter(y => y.p.azure && typeof y.value.fetch === 'function').slice(0, 2)) {
      const form = r.pick(['none', 'record', 'pairs', 'headers'])
      const own = { none: undefined, record: { 'X-Own': '1' }, pairs: [['X-Own', '1']], headers: new Headers({ 'X-Own': '1' }) }[form]
      const before = requests.length; const tokens = y.p.tokens.length
      const o = watchPromise(y.value.fetch(new URL(`${y.want.baseURL}chat/completions?own=1`), { ...(own ? { headers: own } : {}), body: 'raw', method: 'POST' }))
      await until(() => requests.length > before || y.p.tokens.length > tokens || o.state !== 'pending', { extra: 1 })
      if (y.p.azure.token) { y.p.tokens[tokens]?.resolve('token-own'); await until(() => requests.length > before || o.state !== 'pending', { extra: 1 }) }
      const [input, init] = requests[before]?.args ?? []
      const hs = new Headers(init?.headers)
      const url = input && new URL(input)
      ctx.count(`direct:${form}`)
      if (!input || hs.get('authorization') !== `Bearer ${y.p.azure.token ? 'token-own' : y.p.azure.key}` || hs.get('x-own') !== (form === 'none' ? null : '1') || init.body !== 'raw' || url.searchParams.get('own') !== '1' || url.searchParams.get('api-version') !== (y.p.azure.version ?? null))
        ctx.diff('request', `azure's own fetch with ${form} headers: ${input ? `${input} ${show([...hs])}` : `no request, ${show(o.error)}`}`)
      const answer = new Response('x')
      requests[before]?.gate.resolve(answer)
      await until(() => o.state !== 'pending', { extra: 0 })
      if (input && o.value !== answer) ctx.diff('answer', `azure's own fetch: ${o.state} ${show(o.error)}`)
    }
    await settle(1)
    if (ctx.unhandled.length > 0) ctx.diff('outcome', `unhandled rejection ${show(ctx.unhandled[0])}`)
  }
  finally { globalThis.fetch = previous }
  return { h: b.h }
}
