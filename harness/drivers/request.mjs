// Replays Request: performs the configured calls and compares everything that reaches fetch.
import { eq, settle, show, text, until, watchPromise } from '../core.mjs'
import { ENDPOINTS, goodBody, jsonSchema, schemaOf } from '../endpoints.mjs'

const strict = { ...jsonSchema, additionalProperties: false }
const hook = async () => undefined
const mkTools = r => [
  { execute: () => 'SECRET-FUNCTION', function: { name: 'weather', parameters: { properties: { cityName: { type: 'string' } }, type: 'object' }, ...(r.bool() ? { description: 'descr' } : {}), ...(r.bool() ? { strict: r.bool() } : {}) }, type: 'function', ...(r.bool() ? { validate: value => ({ value }) } : {}) },
  { execute: hook, function: { name: 'b', parameters: {} }, type: 'function' },
]
const chatTools = ts => ts.map(t => ({ function: t.function, type: 'function' }))
const respTools = ts => ts.map(t => ({ description: t.function.description ?? null, name: t.function.name, parameters: t.function.parameters, strict: t.function.strict ?? true, type: 'function' }))
const STEP = { onStepFinish: hook, postToolCall: hook, preToolCall: hook, prepareStep: () => ({}), stopWhen: () => true }
const STREAM = { ...STEP, onEvent: () => {}, onFinish: hook }

// what each endpoint puts into the body by itself, and its client-side options
const format = (o, items) => ({ json_schema: { ...(o.schemaDescription !== undefined ? { description: o.schemaDescription } : {}), name: o.schemaName ?? 'json_schema', schema: items ? { additionalProperties: false, properties: { elements: { items: o.strict === false ? jsonSchema : strict, type: 'array' } }, required: ['elements'], type: 'object' } : o.strict === false ? jsonSchema : strict, strict: o.strict ?? true }, type: 'json_schema' })
const objectOpts = r => ({ ...(r.bool() ? { schemaName: 'myName' } : {}), ...(r.bool() ? { schemaDescription: 'descr' } : {}), ...(r.bool() ? { strict: r.bool() } : {}) })
const some = (r, o) => Object.fromEntries(Object.entries(o).filter(() => r.bool()))
const OWN = {
  generateObject: r => { const o = { ...some(r, STEP), ...objectOpts(r), ...(r.bool() ? { output: 'object' } : {}) }; return { body: { response_format: format(o), stream: false }, opts: o, tools: chatTools } },
  generateObjectArray: r => { const o = { ...some(r, STEP), ...objectOpts(r) }; return { body: { response_format: format(o, true), stream: false }, opts: o, tools: chatTools } },
  generateText: r => ({ body: { stream: false }, opts: some(r, STEP), tools: chatTools }),
  responses: (r) => {
    const so = r.pick([undefined, { includeObfuscation: true }, {}])
    return { body: { stream: true, ...(so ? { stream_options: so.includeObfuscation ? { include_obfuscation: true } : {} } : {}) }, opts: { ...some(r, STREAM), ...(so ? { streamOptions: so } : {}) }, tools: respTools }
  },
  streamObject: r => { const o = { ...some(r, STREAM), ...objectOpts(r) }; return { body: { response_format: format(o), stream: true }, opts: o, tools: chatTools } },
  streamObjectArray: r => { const o = { ...some(r, STREAM), ...objectOpts(r) }; return { body: { response_format: format(o, true), stream: true }, opts: o, tools: chatTools } },
  streamSpeech: () => ({ body: { stream_format: 'sse' }, opts: {} }),
  streamText: (r) => {
    const so = r.pick([undefined, { includeUsage: true }, { includeUsage: false }, {}])
    return { body: { stream: true, ...(so ? { stream_options: 'includeUsage' in so ? { include_usage: so.includeUsage } : {} } : {}) }, opts: { ...some(r, STREAM), ...(so ? { streamOptions: so } : {}) }, tools: chatTools }
  },
}
OWN.telGenerateText = OWN.generateText; OWN.telStreamText = OWN.streamText

// [camel name, snake name]
const NAMES = [['temperature', 'temperature'], ['topP', 'top_p'], ['maxCompletionTokens', 'max_completion_tokens'], ['frequencyPenalty', 'frequency_penalty'], ['user', 'user'], ['a', 'a'], ['aBC', 'a_b_c'], ['already_snake', 'already_snake'], ['mixed_Case', 'mixed__case'], ['x1Y2z', 'x1_y2z'], ['reasoningEffort', 'reasoning_effort'], ['seed', 'seed'], ['logitBias', 'logit_bias'], ['äÖü', 'äÖü'], ['with-dash', 'with-dash'], ['n', 'n'], ['dimensions', 'dimensions'], ['store', 'store'], ['extra', 'extra'], ['metadata', 'metadata'], ['toolChoice', 'tool_choice'], ['constructor', 'constructor'], ['encodingFormat', 'encoding_format'], ['key', 'key'], ['fileName', 'file_name'], ['header', 'header'], ['url', 'url'], ['responseFormat', 'response_format'], ['voiceId', 'voice_id'], ['speed', 'speed'], ['parallelToolCalls', 'parallel_tool_calls']]
const valueOf = (r, kind) => {
  switch (kind) {
    case 'null': return null
    case 'false': return false
    case 'zero': return r.pick([0, -0.5, 1e21])
    case 'empty': return r.pick(['', [], {}])
    case 'list': return r.pick([['stop', 'two'], [null, false], [[1]], [{ someKey: 1 }]])
    case 'nested': return r.pick([{ camelKey: { innerKey: null } }, { type: 'function', function: { name: 'x' } }, { apiKey: 'inner', headers: { a: 'b' } }, { a: [{ bC: false }] }])
    case 'text': return r.pick(['text', text(r, 'ü'), 'true', 17, true])
    default: return undefined
  }
}

export const run = async (b, ctx) => {
  const r = ctx.rng
  const previous = globalThis.fetch
  const runs = []
  let global = []
  globalThis.fetch = async (...a) => { global.push(a); return globalHandler(...a) }
  let globalHandler = async () => { throw new Error('unexpected use of the global fetch') }
  let shared
  try {
    for (const [i, x] of b.entries()) {
      const { cfg, sent } = x
      const e = ENDPOINTS[cfg.ep]
      if (x.keep === 'new') {
        const secret = `sk-SECRET-${i}-${r.int(1e9)}`
        const host = r.pick(['http://api.test', 'https://h.test:8080', 'http://127.0.0.1:9'])
        const dir = cfg.base.startsWith('deep') ? r.pick(['/v1/openai', '/a/b%20c', '/x.y/v2']) : cfg.base.startsWith('root') ? '' : '/v1'
        const slash = cfg.base.endsWith('slash') ? '/' : ''
        const s = `${host}${dir}${slash}`
        const custom = { 'X-Custom': `custom-${i}` }
        const rec = { auth: { Authorization: 'Custom a' }, AUTH: { aUTHORIZATION: 'Custom b' }, blank: {}, ctype: { 'Content-Type': 'application/custom' }, CTYPE: { 'content-type': 'text/custom' }, instance: new Headers(custom), instauth: new Headers({ ...custom, authorization: 'Custom c' }), instctype: new Headers({ ...custom, 'Content-Type': 'x/custom' }), none: undefined, record: { 'accept': 'x', 'X-Undef': undefined } }[cfg.head]
        shared = {
          ...(cfg.key === 'absent' ? {} : { apiKey: { empty: '', key: secret, undefined }[cfg.key] }),
          ...(cfg.head === 'none' ? (r.bool() ? {} : { headers: undefined }) : { headers: rec instanceof Headers || cfg.head === 'blank' ? rec : { ...custom, ...rec } }),
          baseURL: r.bool() ? s : new URL(s),
        }
        shared.meta = undefined
        Object.defineProperty(shared, 'meta', { enumerable: false, value: { custom, dir, host, secret } })
      }
      const { custom, dir, host, secret } = shared.meta
      const controller = new AbortController()
      const own = OWN[cfg.ep]?.(r)
      const model = e.get && !e.noModel ? r.pick(['m', 'Org/M-2']) : r.pick(['m', 'Org/Model:7B', 'modèle'])
      // further options
      const used = new Set(['model', 'input', 'messages', 'prompt', 'voice', 'schema', 'output', 'file', 'telemetry'])
      const extra = {}; const wantExtra = {}
      for (const n of ['o1', 'o2', 'o3']) {
        const kind = x.opts[n]
        if (kind === 'absent') continue
        const taken = s => used.has(s) || (own && s in own.body)
        let nm; do { nm = r.pick(NAMES) } while (taken(nm[1]) || (e.form && ['file_name', 'response_format'].includes(nm[1])))
        used.add(nm[1])
        const v = valueOf(r, kind)
        extra[nm[0]] = v
        if (sent.fields.includes(n)) wantExtra[nm[1]] = v
      }
      const tools = own?.tools && r.bool(0.5) ? mkTools(r) : undefined
      const options = { ...shared, ...(e.noModel ? {} : { model }), ...e.required, ...own?.opts, ...extra, ...(tools ? { tools } : {}) }
      if (own?.tools && 'messages' in e.required) options.messages = [{ content: text(r, 'q'), role: 'user' }]
      if (cfg.ep === 'embed') options.input = text(r, 'emb')
      if (cfg.signal === 'signal') options.abortSignal = controller.signal
      else if (r.bool()) options.abortSignal = undefined
      const seen = []
      const handler = async (...a) => { seen.push(a); return new Response(goodBody(e)) }
      global = []; globalHandler = handler
      if (cfg.fetch === 'own') options.fetch = handler
      else if (r.bool()) options.fetch = undefined
      const sharedBefore = { ...shared, headers: shared.headers && [...Object.entries(shared.headers instanceof Headers ? Object.fromEntries(shared.headers) : shared.headers)], baseURL: String(shared.baseURL) }
      const optionsBefore = { ...options }
      const toolsBefore = tools?.map(t => ({ ...t }))
      const w = watchPromise(Promise.resolve(e.call(options)))
      await until(() => w.state !== 'pending', { max: 300, extra: 0 })
      runs.push({ seen: seen.length })

      const say = `call ${i + 1} ${cfg.ep} with ${show({ cfg, extra, own: own && Object.keys(own.opts), tools: !!tools })}`
      if (w.state !== 'resolved') { ctx.diff('outcome', `${say}: ${w.state} ${show(w.error)} ${w.error?.stack}`); continue }
      if (seen.length !== 1) { ctx.diff('request', `${say}: ${seen.length} requests`); continue }
      if ((cfg.fetch === 'own') !== (global.length === 0)) ctx.diff('request', `${say}: used the ${global.length ? 'global' : 'given'} fetch`)
      const [url, init = {}] = seen[0]
      const path = e.path === 'models/m' ? `models/${model}` : e.path
      const wantURL = `${host}${dir}/${path}`
      if (String(url) !== wantURL) ctx.diff('url', `${say}: sent to ${url}, expected ${wantURL}`)
      if ((init.method ?? 'GET') !== (e.get ? 'GET' : 'POST')) ctx.diff('request', `${say}: method ${init.method}`)
      if (init.signal !== (cfg.signal === 'signal' ? controller.signal : undefined)) ctx.diff('signal', `${say}: signal ${init.signal}`)
      // headers, as a server would see them
      let hs
      try { hs = new Headers(init.headers) }
      catch (err) { ctx.diff('headers', `${say}: headers ${show(init.headers)} ${err}`); continue }
      const wantAuth = { bearer: `Bearer ${cfg.key === 'empty' ? '' : secret}`.trim(), custom: null, none: undefined }[sent.auth]
      const auth = hs.get('authorization') ?? undefined
      if (wantAuth === null ? !/^Custom [abc]$/.test(auth) : auth !== wantAuth) ctx.diff('headers', `${say}: authorization ${auth}, expected ${sent.auth}`)
      const ct = hs.get('content-type') ?? undefined
      const wantCt = { custom: /custom$/, json: /^application\/json$/, none: undefined }[sent.ctype]
      if (wantCt ? !wantCt.test(ct) : ct !== undefined) ctx.diff('headers', `${say}: content type ${ct}, expected ${sent.ctype}`)
      if ((hs.get('x-custom') ?? undefined) !== (sent.extra ? custom['X-Custom'] : undefined)) ctx.diff('headers', `${say}: custom header ${hs.get('x-custom')}`)
      if (cfg.head === 'record' && hs.get('accept') !== 'x') ctx.diff('headers', `${say}: accept ${hs.get('accept')}`)
      if (hs.has('x-undef')) ctx.diff('headers', `${say}: an undefined header was sent as ${hs.get('x-undef')}`)
      const known = new Set(['authorization', 'content-type', 'x-custom', 'accept'])
      for (const k of hs.keys()) if (!known.has(k)) ctx.diff('headers', `${say}: unexpected header ${k}`)
      // body
      if (!sent.body) { if (init.body != null) ctx.diff('body', `${say}: has a body`) }
      else if (e.form) {
        const fields = [...init.body.entries()]
        const flat = fields.map(([k, v]) => `${k}=${typeof v === 'string' ? v : 'file'}`).join('&')
        for (const bad of [secret, 'custom-', 'api.test']) if (bad && flat.includes(bad)) ctx.diff('secret', `${say}: the form carries ${bad}`)
        const get = k => fields.filter(f => f[0] === k).map(f => f[1])
        if (!eq(get('model'), [model]) || get('file').length !== 1) ctx.diff('body', `${say}: form ${flat}`)
      }
      else {
        let body
        try { body = JSON.parse(init.body) }
        catch { ctx.diff('body', `${say}: body ${show(init.body)}`); continue }
        const want = { model, ...Object.fromEntries(Object.entries(e.required).filter(([k]) => !['schema', 'output', 'telemetry'].includes(k)).map(([k]) => [k, options[k]])), ...(cfg.ep === 'responses' ? { input: [{ content: 'q', role: 'user', type: 'message' }] } : {}), ...wantExtra, ...own?.body, ...(tools ? { tools: own.tools(tools) } : {}) }
        const norm = JSON.parse(JSON.stringify(want))
        if (!eq(body, norm)) {
          const keys = [...new Set([...Object.keys(body), ...Object.keys(norm)])].filter(k => !eq(body[k], norm[k]))
          ctx.diff('body', `${say}: body differs in ${keys.map(k => `${k}: ${show(body[k])} instead of ${show(norm[k])}`).join('; ')}`)
        }
        for (const bad of [secret, 'SECRET-FUNCTION', custom['X-Custom']]) if (bad && init.body.includes(bad)) ctx.diff('secret', `${say}: the body carries ${bad}`)
      }
      // the caller's own objects
      const sharedAfter = { ...shared, headers: shared.headers && [...Object.entries(shared.headers instanceof Headers ? Object.fromEntries(shared.headers) : shared.headers)], baseURL: String(shared.baseURL) }
      if (!eq(sharedBefore, sharedAfter)) ctx.diff('input', `${say}: the shared options changed from ${show(sharedBefore)} to ${show(sharedAfter)}`)
      for (const k of new Set([...Object.keys(options), ...Object.keys(optionsBefore)])) if (options[k] !== optionsBefore[k]) ctx.diff('input', `${say}: option ${k} of the caller was changed`)
      if (tools && tools.some((t, j) => Object.keys({ ...t, ...toolsBefore[j] }).some(k => t[k] !== toolsBefore[j][k]))) ctx.diff('input', `${say}: a tool of the caller was changed`)
      ctx.count(`auth:${sent.auth}`); ctx.count(`ctype:${sent.ctype}`)
    }
    await settle(1)
  }
  finally { globalThis.fetch = previous }
  return { h: b }
}
