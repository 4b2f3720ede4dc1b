// Replays Retry under a virtual clock.
import { createFetch } from 'repo:packages-top/xsfetch'
import { bytesOf, deferred, settle, show, until, watchPromise } from '../core.mjs'

const DEFAULT = [408, 409, 425, 429, 500, 502, 503, 504]
const OTHER = [400, 401, 403, 404, 410, 422, 501, 505, 304, 307]
const OK = [200, 201, 202, 204, 206]

const bodies = r => r.pick([
  () => ({ body: undefined, bytes: '', method: r.pick(['GET', 'DELETE']) }),
  () => ({ body: `{"n":${r.int(1e6)},"é":"ü"}`, method: 'POST' }),
  () => ({ body: bytesOf(`bytes ${r.int(1e6)} é`), method: 'PUT' }),
  () => ({ body: new Blob([`blob ${r.int(1e6)}`], { type: 'a/b' }), method: 'POST' }),
  () => ({ body: new URLSearchParams({ a: `é ${r.int(1e6)}`, b: '2' }), method: 'POST' }),
  () => { const f = new FormData(); f.append('a', `v${r.int(1e6)}`); f.append('file', new Blob(['x'.repeat(r.int(2000))]), 'n.bin'); return { body: f, form: true, method: 'POST' } },
])()

export const run = async (b, ctx) => {
  const r = ctx.rng
  const saved = { clear: globalThis.clearTimeout, fetch: globalThis.fetch, now: Date.now, set: globalThis.setTimeout, warn: console.warn }
  let now = 0; let nextId = 1
  const timers = new Map()
  const custom = r.pick([[418, 500], [400, 401, 404], [503], []])
  const codes = b.cfg.codes === 'default' ? DEFAULT : custom
  const pool = { net: [], ok: OK, other: [...OTHER, ...DEFAULT].filter(s => !codes.includes(s)), retryable: codes }
  if (b.h.some(x => x.r === 'retryable') && codes.length === 0) { pool.retryable = undefined }
  let warned = 0
  let issuing
  const calls = []
  try {
    globalThis.setTimeout = (fn, ms = 0, ...a) => { const id = nextId++; timers.set(id, { at: now + ms, fn: () => fn(...a), seq: id }); return id }
    globalThis.clearTimeout = (id) => { timers.delete(id) }
    console.warn = () => { warned++ }
    const advance = async (to) => {
      while (true) {
        const due = [...timers].filter(([, t]) => t.at <= to).sort((x, y) => x[1].at - y[1].at || x[1].seq - y[1].seq)[0]
        if (!due) break
        timers.delete(due[0]); now = Math.max(now, due[1].at)
        due[1].fn(); await settle(2)
      }
      now = to
      await settle(2)
    }
    // attempts are recognised by the identity they carry
    globalThis.fetch = (input, init) => {
      const url = input instanceof Request ? input.url : String(input)
      const i = Number(/call=(\d+)/.exec(url)?.[1])
      const c = calls[i - 1]
      if (!c) return Promise.reject(new Error('unknown call'))
      const a = { gate: deferred(), init, input, text: undefined, url }
      c.attempts.push(a)
      // read what a server would get
      a.read = (async () => {
        const req = input instanceof Request && init === undefined ? input : new Request(input, init)
        a.method = req.method; a.header = req.headers.get('x-h')
        a.type = (req.headers.get('content-type') ?? '').split(';')[0]
        a.form = c.req.form ? await req.formData() : undefined
        a.text = c.req.form ? undefined : await req.text()
      })().catch((e) => { a.failed = e })
      return a.gate.promise
    }
    const options = { ...(b.cfg.retry === -1 ? (r.bool() ? {} : { retry: undefined }) : { retry: b.cfg.retry === 1000 ? Infinity : b.cfg.retry }), ...(b.cfg.delay === -1 ? (r.bool() ? {} : { retryDelay: undefined }) : { retryDelay: b.cfg.delay }), ...(b.cfg.codes === 'default' ? {} : { retryStatusCodes: [...custom] }), ...(r.bool(0.3) ? { debug: r.bool() } : {}) }
    if (pool.retryable === undefined) return
    const f = createFetch(Object.keys(options).length === 0 && r.bool() ? undefined : options)
    let warnings = 0
    const signal = new AbortController().signal
    for (const x of b.h) {
      if (x.o === 'issue') {
        const c = { attempts: [], req: bodies(r) }
        calls.push(c)
        const url = `http://srv.test/x?call=${x.c}&q=é`
        const init = { body: c.req.body, headers: { 'X-H': `h${x.c}` }, method: c.req.method, signal }
        c.kind = r.pick(['string', 'url', 'request', ...(c.req.body === undefined ? [] : ['both'])])
        c.out = c.kind === 'string'
          ? f(url, init)
          : c.kind === 'url' ? f(new URL(url), init) : c.kind === 'request' ? f(new Request(url, init)) : f(new Request(url, { method: 'POST', body: 'overridden' }), init)
        c.w = watchPromise(c.out)
        c.init = init
      }
      else if (x.o === 'answer') {
        const c = calls[x.c - 1]
        const a = c.attempts.at(-1)
        await a.read
        if (x.r === 'net') { a.err = r.pick([new TypeError('fetch failed'), new DOMException('x', 'AbortError'), 'gone']); a.gate.reject(a.err) }
        else {
          const status = r.pick(pool[x.r])
          a.res = new Response(status === 204 || status === 304 ? null : `answer ${x.c}`, { status })
          a.gate.resolve(a.res)
        }
        if (x.again && options.debug) warnings++
      }
      else if (x.o === 'elapse') { await advance(x.to) }
      else if (x.o === 'early') { await advance(x.to) }
      await settle(3)
      if (x.o === 'issue') await until(() => calls.at(-1).attempts.length > 0)
      // every call is where the specification says
      for (const [k, c] of calls.entries()) {
        const done = b.h.slice(0, b.h.indexOf(x) + 1)
        const asked = done.filter(y => (y.o === 'issue' && y.c === k + 1) || (y.o === 'elapse' && y.woken.includes(k + 1))).length
        if (c.attempts.length !== asked) { ctx.diff('attempts', `after ${show(x)} (time ${now}): call ${k + 1} made ${c.attempts.length} attempts, expected ${asked}; options ${show(options)}`); return }
        const fin = done.find(y => y.o === 'answer' && y.c === k + 1 && !y.again)
        const state = fin ? (fin.r === 'net' ? 'rejected' : 'resolved') : 'pending'
        if (c.w.state !== state) { ctx.diff('outcome', `after ${show(x)}: call ${k + 1} is ${c.w.state} ${show(c.w.error)}, expected ${state}; options ${show(options)}`); return }
        if (state === 'resolved' && c.w.value !== c.attempts.at(-1).res) ctx.diff('answer', `call ${k + 1} returned another response than the last one`)
        if (state === 'rejected' && c.w.error !== c.attempts.at(-1).err) ctx.diff('answer', `call ${k + 1} failed with ${show(c.w.error)}`)
      }
    }
    // every attempt carried the same request
    for (const [k, c] of calls.entries()) {
      for (const [n, a] of c.attempts.entries()) {
        await a.read
        if (a.failed) { ctx.diff('request', `attempt ${n + 1} of call ${k + 1} (${c.kind}) could not be read: ${a.failed}`); continue }
        const first = c.attempts[0]
        if (c.req.form) {
          const flat = async form => Promise.all([...form.entries()].map(async ([p, v]) => `${p}=${typeof v === 'string' ? v : `${v.name}:${await v.text()}`}`))
          const want = (await flat(c.req.body)).join('&'); const got = (await flat(a.form)).join('&')
          if (want !== got) ctx.diff('request', `attempt ${n + 1} of call ${k + 1} carried the form ${got}, expected ${want}`)
        }
        else {
          const want = c.req.body === undefined ? '' : await new Response(c.req.body).text()
          if (a.text !== want) ctx.diff('request', `attempt ${n + 1} of call ${k + 1} (${c.kind}) carried ${show(a.text)}, expected ${show(want)}`)
        }
        if (a.url !== first.url || a.method !== c.req.method || a.header !== `h${k + 1}` || a.type !== first.type) ctx.diff('request', `attempt ${n + 1} of call ${k + 1}: ${a.method} ${a.url} ${a.header} ${a.type}`)
        if (c.kind !== 'request' && a.init?.signal !== signal) ctx.diff('request', `attempt ${n + 1} of call ${k + 1} lost the signal`)
      }
    }
    if ((options.debug ? warnings : 0) !== warned) ctx.diff('warn', `${warned} warnings, expected ${options.debug ? warnings : 0}`)
    if (timers.size) ctx.diff('outcome', `${timers.size} timers left`)
    if (ctx.unhandled.length) ctx.diff('outcome', `unhandled ${show(ctx.unhandled[0])}`)
    ctx.count('replayed')
  }
  finally { Object.assign(globalThis, { clearTimeout: saved.clear, fetch: saved.fetch, setTimeout: saved.set }); console.warn = saved.warn }
  return { cfg: b.cfg, h: b.h }
}
