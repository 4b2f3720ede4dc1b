// Replays Http: issues calls and answers them in the order of the behaviour; every outcome is classified.
import { APICallError, InvalidResponseError, JSONParseError, RemoteAPIError } from 'repo:packages/shared'
import { bytesOf, deferred, eq, settle, show, text, until, watchPromise } from '../core.mjs'
import { ENDPOINTS, goodBody } from '../endpoints.mjs'
import { allSpans, attrs, exceptions, failedSpan, installTracing, resetSpans } from '../otel.mjs'

const STATUS = { client: [400, 401, 403, 404, 408, 409, 413, 418, 422, 425, 429, 451, 499], redirect: [300, 301, 302, 304, 307, 308], retryable: [408, 409, 425, 429, 500, 502, 503, 504], server: [500, 501, 502, 503, 504, 529, 599] }

export const setup = (job) => { if (job.otel) installTracing() }

export const run = async (b, ctx) => {
  resetSpans()
  // the operations of an instrumented call: one span, open exactly while it is under way
  const spanOf = (c, at, over) => {
    const mine = allSpans().filter(s => attrs(s)['harness.call'] === c.tag)
    if (mine.length !== 1) { ctx.diff('spans', `${at}: ${mine.length} spans for one ${c.e.name}`); return }
    const [rec] = mine
    if (rec.ends !== (over ? 1 : 0)) ctx.diff('spans', `${at}: the span was ended ${rec.ends} times, the call is ${over ? 'over' : 'under way'}`)
    const a = attrs(rec)
    const want = { 'gen_ai.operation.name': c.e.kind === 'json' ? 'embeddings' : 'chat', 'gen_ai.request.model': 'm', 'server.address': 'api.test', 'server.port': c.port, ...(c.dimensions === undefined ? {} : { 'gen_ai.embeddings.dimension.count': c.dimensions }) }
    for (const [k, v] of Object.entries(want)) if (!eq(a[k], v)) ctx.diff('attrs', `${at}: ${k} is ${show(a[k])}, expected ${show(v)}`)
    if (!over) return
    const failed = c.outcome.state === 'rejected'
    if (failedSpan(rec) !== failed) ctx.diff('status', `${at}: the span has status ${show(rec.span.status)}, the call ${c.outcome.state}`)
    const ex = exceptions(rec)
    const e = c.outcome.error
    if (failed ? e instanceof Error && !e.disagree && (ex.length !== 1 || ex[0]['exception.message'] !== e.message) : ex.length > 0) ctx.diff('status', `${at}: the span recorded ${show(ex)}`)
    const used = failed || c.ok !== true ? undefined : c.e.answer?.usage?.prompt_tokens ?? 2
    if (c.ok && !eq(a['gen_ai.usage.input_tokens'], used)) ctx.diff('attrs', `${at}: input tokens ${show(a['gen_ai.usage.input_tokens'])}, expected ${show(used)}`)
    if (failed && 'gen_ai.usage.input_tokens' in a) ctx.diff('attrs', `${at}: the failed call has usage`)
    ctx.count(`span:${c.e.kind}:${failed ? 'failed' : 'ok'}`)
  }
  const r = ctx.rng
  const calls = []
  const previous = globalThis.fetch
  let surplus = 0
  globalThis.fetch = async () => { surplus++; throw new Error('global fetch used') }
  try {
    for (const x of b.h) {
      if (x.o === 'issue') {
        const e = ENDPOINTS[x.ep]
        const c = { e, gate: deferred(), requests: 0 }
        calls.push(c)
        const fetch = (...a) => {
          c.requests++
          if (c.requests > 1) return Promise.reject(new Error('second request'))
          if (c.sync) throw c.sync
          return c.gate.promise
        }
        c.options = { ...(e.noModel ? {} : { model: 'm' }), ...e.required, apiKey: 'k', baseURL: 'http://api.test/v1/', fetch }
        if (ctx.job.otel) {
          c.tag = `call-${calls.length}`
          const base = r.pick(['http://api.test/v1/', 'https://api.test/v1/', 'http://api.test:8080/v1/'])
          c.port = base.includes('8080') ? 8080 : base.startsWith('https') ? 443 : 80
          c.options.baseURL = r.bool() ? base : new URL(base)
          c.options.telemetry = { attributes: { 'harness.call': c.tag } }
          if (e.kind === 'json' && r.bool()) c.options.dimensions = c.dimensions = 1 + r.int(9)
        }
        // an answer that throws synchronously has to be known beforehand
        const ans = b.h.find(y => y.o === 'answer' && y.c === x.c)
        if (ans.r === 'netsync') c.sync = r.pick([new TypeError('fetch failed'), new Error('sync')])
        try { c.outcome = watchPromise(Promise.resolve(e.call(c.options))) }
        catch (err) { ctx.diff('outcome', `${x.ep} threw synchronously: ${err?.stack}`); return }
        if (!await until(() => c.requests > 0 || c.outcome.state !== 'pending', { extra: 1 })) { ctx.diff('requests', `${x.ep} sent no request`); return }
        if (ctx.job.otel && !c.sync) spanOf(c, `${x.ep} under way`, false)
        continue
      }
      const c = calls[x.c - 1]
      const { e } = c
      let err; let body; let res
      const make = (b, init) => new Response(b, init)
      switch (x.r) {
        case 'net': err = r.pick([new TypeError('fetch failed'), new DOMException('gone', 'AbortError'), 'a string', Object.assign(new Error('x'), { code: 'ECONNRESET' })]); c.gate.reject(err); break
        case 'netsync': err = c.sync; break
        case 'redirect': case 'client': case 'retryable': case 'server':
          body = r.pick(['', `{"error":{"message":"${x.r} é"}}`, text(r, 'plain').replace('\uFEFF', ''), '<html>', goodBody(e), `<p>${'long é '.repeat(2000)}`])
          res = make([304].includes(0) ? null : body, { status: 500 })
          { const status = r.pick(STATUS[x.r]); if (status === 304) { body = ''; res = make(null, { status }) } else res = make(body, { headers: { 'X-Id': 'h1' }, status, statusText: 'Nope' }); c.status = status }
          break
        case 'badnobody': body = ''; c.status = r.pick(STATUS.server); res = make(null, { status: c.status }); break
        case 'badcut': err = new Error('connection lost'); c.status = 500; res = make(new ReadableStream({ start: (k) => { k.enqueue(bytesOf('part')) }, pull: (k) => { k.error(err) } }), { status: 500 }); break
        case 'nobody': res = make(null, { status: r.pick([200, 204, 205]) }); break
        case 'notstream': {
          const odd = r.pick(['text', new Uint8Array(3), {}, Buffer.from('x')])
          res = new Proxy(make('{}', { headers: { 'Content-Type': 'application/odd' } }), { get: (t, k) => (k === 'body' ? odd : typeof t[k] === 'function' ? t[k].bind(t) : t[k]) })
          break
        }
        case 'cut': err = new Error('connection lost'); { const good = bytesOf(goodBody(e)); let n = 0; res = make(new ReadableStream({ pull: (k) => { if (n++ === 0) k.enqueue(good.slice(0, r.int(Math.min(good.length, 30)))); else k.error(err) } })) } break
        case 'notjson': body = e.kind === 'stream' ? r.pick(['data: nope\n\n', 'data: {"a":\n\n', `data: {${'x'.repeat(9000)}\n\n`]) : r.pick(['nope', '{"a":', '<html></html>', 'undefined', '{"data":[]}x', `{${'x'.repeat(9000)}`, '  {"a"\n']); res = make(body); break
        case 'blank': body = ''; res = make(''); break
        case 'nochoices': body = r.pick(['{}', '{"choices":[]}', '{"choices":null}', '{"id":"x","choices":[],"usage":null}']); res = make(body); break
        case 'errormsg': body = r.pick(['{"error":{"message":"overloaded é"}}', `{"error":{"message":"${'overloaded '.repeat(500)}"}}`]); res = make(`data: ${body}\n\n`); break
        case 'good': res = make(goodBody(e), { headers: { 'Content-Type': r.pick(['application/json', 'text/plain', 'text/event-stream']) }, status: 200 }); break
        case 'goodother': { const s = goodBody(e); const bytes = bytesOf(s); const k = r.int(bytes.length); res = make(new ReadableStream({ start: (q) => { q.enqueue(bytes.slice(0, k)); q.enqueue(bytes.slice(k)); q.close() } }), { status: r.pick([201, 202, 203, 206, 299]), statusText: r.pick(['', 'Error', 'Created']) }); break }
      }
      if (res && !('url' in Object.getOwnPropertyDescriptors(res)) && x.r !== 'notstream') Object.defineProperty(res, 'url', { value: `http://api.test/${x.c}` })
      if (res) c.gate.resolve(res)
      if (!await until(() => c.outcome.state !== 'pending', { max: 200, extra: 1 })) { ctx.diff('outcome', `${x.ep} did not settle after ${x.r}`); continue }
      const o = c.outcome
      const say = `${x.ep}, server answered ${x.r}${c.status ? ` ${c.status}` : ''} ${show(body ?? '')}`
      const got = o.state === 'resolved' ? `success ${show(o.value)}` : `failure ${show(o.error)}`
      const fail = facet => ctx.diff(facet, `${say}: expected ${x.out}, got ${got}`)
      if (o.error?.disagree) { fail('outcome'); continue }
      switch (x.out) {
        case 'ok': if (o.state !== 'resolved') fail('class'); else if (x.r.startsWith('good') && !e.value(o.value)) fail('value'); break
        case 'network': case 'broken': if (o.state !== 'rejected') fail('class'); else if (o.error !== err) fail('class'); break
        case 'status':
          if (!(o.state === 'rejected' && APICallError.isInstance(o.error))) fail('class')
          else if (o.error.statusCode !== c.status || o.error.responseBody !== body || o.error.response !== res || o.error.response.status !== c.status) ctx.diff('detail', `${say}: error carries status ${o.error.statusCode}, body ${show(o.error.responseBody)}`)
          else if (o.error.url !== res.url || o.error.statusText !== res.statusText || !eq(o.error.responseHeaders, Object.fromEntries(res.headers)) || o.error.code !== 'api_call_error') ctx.diff('detail', `${say}: error carries ${show({ code: o.error.code, headers: o.error.responseHeaders, text: o.error.statusText, url: o.error.url })}`)
          break
        case 'empty_body': case 'invalid_body':
          if (!(o.state === 'rejected' && InvalidResponseError.isInstance(o.error) && o.error.reason === x.out)) fail('class')
          else if (o.error.response !== res) ctx.diff('detail', `${say}: the error does not carry the response`)
          else if (o.error.code !== 'invalid_response' || (x.out === 'invalid_body' && o.error.contentType !== 'application/odd')) ctx.diff('detail', `${say}: error carries ${show({ code: o.error.code, type: o.error.contentType })}`)
          break
        case 'no_choices':
          if (!(o.state === 'rejected' && InvalidResponseError.isInstance(o.error) && o.error.reason === x.out)) fail('class')
          else if (!eq(JSON.parse(o.error.responseBody), JSON.parse(body))) ctx.diff('detail', `${say}: the error carries ${show(o.error.responseBody)}`)
          break
        case 'parse':
          if (!(o.state === 'rejected' && JSONParseError.isInstance(o.error))) fail('class')
          else { const want = e.kind === 'stream' ? body.slice(6, -2) : body; if (o.error.text !== want || o.error.code !== 'json_parse_error' || !(o.error.cause instanceof SyntaxError)) ctx.diff('detail', `${say}: the error carries the text ${show(o.error.text)}, code ${o.error.code}, cause ${show(o.error.cause)}`) }
          break
        case 'remote':
          if (!(o.state === 'rejected' && RemoteAPIError.isInstance(o.error))) fail('class')
          else if (o.error.responseBody !== body || o.error.code !== 'remote_api_error') ctx.diff('detail', `${say}: the error carries ${show(o.error.responseBody)}, code ${o.error.code}`)
          break
      }
      ctx.count(`out:${x.out}`)
      if (ctx.job.otel) { c.ok = x.r.startsWith('good'); spanOf(c, say, true) }
    }
    await settle(2)
    for (const c of calls) if (c.requests !== 1) ctx.diff('requests', `${c.e.name} made ${c.requests} requests`)
    if (surplus) ctx.diff('requests', 'the global fetch was used although one was given')
    if (ctx.unhandled.length) ctx.diff('unhandled', `unhandled rejection ${show(ctx.unhandled[0])}`)
  }
  finally { globalThis.fetch = previous }
  return { h: b.h }
}
