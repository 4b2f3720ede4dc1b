// Replays Smooth and Simulate under a virtual clock.
import { simulateReadableStream, smoothStream } from 'repo:packages/utils-stream'
import { collect, settle, show, until } from '../core.mjs'
import { withClock } from '../vclock.mjs'

const CUSTOM = {
  char: [/[\s\S]/, /[\s\S]/g, /[^]/y, /[\s\S]/u],
  comma: [/,/, /[^,]*,/, /,/g, /[^,]*?,/u],
  never: [/zzz/, /(?!)/, /q*/, /q*/g, /$^/],
  pair: [/LL/, /LL/g, /L{2}/],
}

const smooth = async (b, ctx, clock) => {
  const r = ctx.rng
  const pair = b.cfg.kind === 'pair'
  // the letter in the pattern of pairs must be the letter of the text
  const map = { ' ': r.pick([' ', '\t', ' ', '\u00A0']), ',': ',', 'a': pair ? 'L' : r.pick(['a', 'é', '日', '.', '-', '}']), 'n': b.cfg.kind === 'line' || pair || r.bool() ? '\n' : r.pick(['\n', '\r']) }
  const put = cs => cs.map(c => map[c]).join('')
  const kind = b.cfg.kind
  const options = {}
  if (kind !== 'word' || r.bool()) options.chunking = kind === 'word' || kind === 'line' ? kind : r.pick(CUSTOM[kind])
  if (b.cfg.delay !== 10 || r.bool()) options.delay = b.cfg.delay
  const shared = ctx.renderNo % 2 === 1 && options.chunking instanceof RegExp
  const other = shared ? smoothStream(options) : undefined   // two transforms over one pattern object
  const t = Object.keys(options).length === 0 && r.bool() ? smoothStream() : smoothStream(options)
  let c
  const input = new ReadableStream({ start: (x) => { c = x } })
  const out = collect(input.pipeThrough(t))
  const times = []
  const items = out.items
  const push = items.push.bind(items)
  items.push = (...xs) => { for (const _ of xs) times.push(clock.now); return push(...xs) }
  let ow
  if (other) { ow = other.writable.getWriter(); void new Response(other.readable.pipeThrough(new TextEncoderStream())).text().catch(() => {}) }
  const err = new Error('input failed')
  for (const x of b.h) {
    if (x.o === 'write') { if (ow) void ow.write(put([...x.p]).repeat(2)).catch(() => {}); c.enqueue(put(x.p)) }
    else if (x.o === 'close') c.close()
    else if (x.o === 'error') c.error(err)
    if (x.o === 'error') {
      // what was on its way may or may not still come out
      for (let i = 0; i < 40 && out.state === 'open'; i++) await clock.to(clock.now + 10)
      if (out.state !== 'errored' || out.error !== err) ctx.diff('outcome', `after an input failure the output is ${out.state} ${show(out.error)}`)
      if (!put(b.all).startsWith(items.join('')) || items.length < x.n && b.cfg.delay > 0) ctx.diff('pieces', `after an input failure: ${show(items)} of ${show(put(b.all))}`)
      ctx.count('smooth:failed')
      return
    }
    if (b.cfg.delay === 0) { await settle(2); continue }   // a wait of nothing may be no wait at all
    await clock.to(x.now)
    const want = x.closed === 'open' ? 'open' : x.closed
    await until(() => (items.length >= x.n && out.state === want) || out.state === 'errored', { max: 12 })
    if (items.length !== x.n || out.state !== want) {
      const step = b.h.indexOf(x) + 1
      ctx.diff(items.length === x.n ? 'outcome' : 'pieces', `${show(options.chunking ?? 'word')} delay ${b.cfg.delay}: after step ${step} (${x.o} at ${x.now}) of ${show(b.h.map(y => y.o + (y.p ? ` ${put(y.p)}` : '')))}: output ${show(items)} ${out.state} ${show(out.error)}, expected ${show(b.out.slice(0, x.n).map(o => put(o[0])))} ${want}`)
      return
    }
  }
  const want = b.out.map(o => put(o[0]))
  if (b.cfg.delay === 0) {
    for (let i = 0; i < 40 && out.state === 'open'; i++) await clock.to(clock.now)
    if (out.state !== 'closed') { ctx.diff('outcome', `delay 0: the output is ${out.state} ${show(out.error)}`); return }
    if (items.join('') !== put(b.all)) { ctx.diff('pieces', `delay 0: ${show(items)} of ${show(put(b.all))}`) }
    ctx.count('smooth:nodelay')
    return
  }
  if (want.some((w, i) => items[i] !== w) || want.length !== items.length) ctx.diff('pieces', `${show(String(options.chunking))} pieces ${show(items)}, expected ${show(want)} for ${show(put(b.all))}`)
  for (const [i, o] of b.out.entries()) if (times[i] !== o[1]) { ctx.diff('times', `${show(String(options.chunking))} delay ${b.cfg.delay}: times ${show(times)}, expected ${show(b.out.map(q => q[1]))} for ${show(items)}`); break }
  ctx.count(`smooth:${kind}`)
}

const simulate = async (b, ctx, clock) => {
  const r = ctx.rng
  const chunks = Array.from({ length: b.cfg.n }, (_, i) => r.pick([`c${i}`, { i }, i, null, '', undefined, [i]]))
  const kept = [...chunks]
  const c = collect(simulateReadableStream({ chunkDelay: b.cfg.delay, chunks, initialDelay: b.cfg.initial }))
  const times = []
  const push = c.items.push.bind(c.items)
  c.items.push = (...xs) => { for (const _ of xs) times.push(clock.now); return push(...xs) }
  await settle(2)
  if (b.cfg.n === 0) await until(() => c.state === 'closed')
  if (c.items.length !== 0 && b.cfg.initial > 0) ctx.diff('times', `${c.items.length} chunks before any time passed`)
  for (const x of b.h) {
    // a wait of 0 ends as soon as the timers run
    if (x.o === 'cancel') { if (b.cfg.delay === 0 || b.cfg.initial === 0) return; await c.cancel() }
    else await clock.to(x.now)
    if (x.o === 'chunk' && b.cfg.delay === 0) continue
    await until(() => c.items.length >= x.got && c.state === x.st, { max: 12 })
    if (c.items.length !== x.got || c.state !== x.st) { ctx.diff('pieces', `after ${x.o} at ${x.now}: ${show(c.items)} ${c.state}, expected ${x.got} chunks, ${x.st}; ${show(b.cfg)}`); return }
  }
  await clock.to(clock.now + 1000)
  const last = b.h.at(-1) ?? { got: 0, st: 'closed' }
  if (c.items.length !== last.got || c.state !== last.st) ctx.diff('outcome', `at the end: ${c.items.length} chunks, ${c.state}; expected ${last.got}, ${last.st}`)
  if (c.items.some((x, i) => x !== kept[i])) ctx.diff('pieces', `chunks ${show(c.items)}, expected ${show(kept)}`)
  for (const [i, t] of times.entries()) if (t !== b.cfg.initial + i * b.cfg.delay) { ctx.diff('times', `times ${show(times)} for ${show(b.cfg)}`); break }
  ctx.count(`simulate:${last.st}`)
}

export const run = (b, ctx) => withClock(async (clock) => {
  await (b.cfg.kind ? smooth : simulate)(b, ctx, clock)
  if (ctx.unhandled.length) ctx.diff('outcome', `unhandled ${show(ctx.unhandled[0])}`)
  return b.h
})
