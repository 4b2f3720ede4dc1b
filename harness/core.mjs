// Shared helpers of the replay harness.

export const hash = (s) => {
  let h = 0x811C9DC5
  for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 0x01000193) }
  h ^= h >>> 16; h = Math.imul(h, 0x85EBCA6B); h ^= h >>> 13; h = Math.imul(h, 0xC2B2AE35); h ^= h >>> 16
  return h >>> 0
}

export const rng = (seed) => {
  let a = seed >>> 0
  const next = () => {
    a = (a + 0x6D2B79F5) >>> 0
    let t = a
    t = Math.imul(t ^ (t >>> 15), t | 1)
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61)
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296
  }
  return {
    next,
    int: n => Math.floor(next() * n),
    bool: (p = 0.5) => next() < p,
    pick: xs => xs[Math.floor(next() * xs.length)],
    shuffle: (xs) => {
      const a = [...xs]
      for (let i = a.length - 1; i > 0; i--) { const j = Math.floor(next() * (i + 1)); [a[i], a[j]] = [a[j], a[i]] }
      return a
    },
  }
}

const realSetImmediate = globalThis.setImmediate
export const tick = () => new Promise(r => realSetImmediate(r))
export const settle = async (n = 3) => { for (let i = 0; i < n; i++) await tick() }

/** waits (bounded) until pred() holds, then two more rounds so that surplus reactions show up too */
export const until = async (pred, { max = 60, extra = 2 } = {}) => {
  let i = 0
  while (!pred() && i++ < max) await tick()
  await settle(extra)
  return pred()
}

/** structural equality that tells undefined-valued keys apart from nothing else: undefined keys are ignored */
export const eq = (a, b) => {
  if (Object.is(a, b)) return true
  if (typeof a !== 'object' || typeof b !== 'object' || a === null || b === null) return false
  if (Array.isArray(a) !== Array.isArray(b)) return false
  if (Array.isArray(a)) {
    if (a.length !== b.length) return false
    for (let i = 0; i < a.length; i++) if (!eq(a[i], b[i])) return false
    return true
  }
  if (ArrayBuffer.isView(a) || ArrayBuffer.isView(b))
    return ArrayBuffer.isView(a) && ArrayBuffer.isView(b) && Buffer.from(a).equals(Buffer.from(b))
  const ka = Object.keys(a).filter(k => a[k] !== undefined); const kb = Object.keys(b).filter(k => b[k] !== undefined)
  if (ka.length !== kb.length) return false
  for (const k of ka) if (!Object.hasOwn(b, k) || !eq(a[k], b[k])) return false
  return true
}

export const show = (v, max = 600) => {
  let s
  try {
    s = JSON.stringify(v, (_, x) => x instanceof Error ? `${x.name}: ${x.message}` : typeof x === 'function' ? '[function]' : x === undefined ? '[undefined]' : x)
  }
  catch { s = String(v) }
  s = s ?? String(v)
  return s.length > max ? `${s.slice(0, max)}…` : s
}

// ---------------------------------------------------------------- rendering of abstract tokens

const NASTY = ['é', '日本', '🙂', '👩‍👩‍👧', ' ', '  ', '\n', '\r\n', '\t', '"', '\\', '{', '}', '[', ']', ':', ',', '[DONE]', 'data: ', 'error', '{"error":1}', '<think>', '</think>', '\u2028', '0', 'null', 'undefined', '%', '&', '\u00A0', 'ß', '\u0301', '\uFEFF']

/** a fresh text containing `tag` so that renderings of different tokens stay distinct */
export const text = (r, tag) => {
  const pre = r.bool(0.4) ? r.pick(NASTY) : ''
  const post = r.bool(0.4) ? r.pick(NASTY) : ''
  return `${pre}${tag}${post}`
}

const te = new TextEncoder()

/** random partition of bytes */
export const splitBytes = (bytes, r, mode) => {
  const m = mode ?? r.int(4)
  if (m === 0) return [bytes]
  const out = []
  let i = 0
  while (i < bytes.length) {
    const n = m === 1 ? 1 + r.int(3) : m === 2 ? 1 + r.int(40) : 1 + r.int(400)
    out.push(bytes.slice(i, i + n))
    i += n
  }
  return out
}

export const sseEvent = (data, r) => {
  const nl = r ? r.pick(['\n', '\n', '\r\n']) : '\n'
  let s = ''
  if (r && r.bool(0.1)) s += `: keep-alive${nl}`
  if (r && r.bool(0.1)) s += `event: message${nl}`
  if (r && r.bool(0.1)) s += `id: 7${nl}`
  const lines = data.split('\n')
  for (const l of lines) s += `data:${r && r.bool(0.3) ? '' : ' '}${l}${nl}`
  return s + nl
}

/** an SSE body controlled from outside */
export const controlledBody = () => {
  let ctrl
  let cancelled = false
  let closed = false
  const stream = new ReadableStream({ start: c => { ctrl = c }, cancel: () => { cancelled = true } })
  return {
    stream,
    push: (bytes) => { if (!cancelled) ctrl.enqueue(bytes) },
    close: () => { if (!cancelled) try { closed = true; ctrl.close() } catch {} },
    /** a body that has arrived completely is not affected by a later failure or abort */
    error: (e) => { if (!cancelled && !closed) try { ctrl.error(e) } catch {} },
    get cancelled() { return cancelled },
  }
}

export const bytesOf = s => te.encode(s)

/** a Response whose body is the given byte stream */
export const streamResponse = (stream, init) => new Response(stream, { headers: { 'Content-Type': 'text/event-stream' }, ...init })

export const jsonResponse = (obj, r, init) => {
  const s = JSON.stringify(obj)
  return new Response(s, { headers: { 'Content-Type': 'application/json' }, ...init })
}

export const deferred = () => Promise.withResolvers()

/** reads a stream eagerly into an array, remembering how it ended */
export const collect = (stream) => {
  const c = { items: [], state: 'open', error: undefined, reader: stream.getReader() }
  c.done = (async () => {
    try {
      while (true) {
        const { done, value } = await c.reader.read()
        if (done) { if (c.state === 'open') c.state = 'closed'; return }
        c.items.push(value)
      }
    }
    catch (e) { if (c.state === 'open') { c.state = 'errored'; c.error = e } }
  })()
  c.cancel = async () => { c.state = 'cancelled'; await c.reader.cancel('not interested') }
  return c
}

export const watchPromise = (p) => {
  const w = { state: 'pending', value: undefined, error: undefined, settled: 0 }
  p.then((v) => { w.state = 'resolved'; w.value = v }, (e) => { w.state = 'rejected'; w.error = e })
  return w
}
