// Replays Elements through streamObject: the answer's text in deltas of any size, outputs compared after every delta.
import { streamObject } from 'repo:packages/stream-object'
import { bytesOf, collect, controlledBody, eq, settle, show, streamResponse, until, watchPromise } from '../core.mjs'
import { jsonSchema, schemaOf } from '../endpoints.mjs'

const WORDS = ['a', 'é', '', '🙂', 'x y', '"', '\\', '\n', 'a\\n', '日本', '}', ']', ',', '{"', '//', '/*', '<!--', '`', '\'', ' ', '\u2028', ':', 'null', 'elements', '\u0001']
const NUMBERS = [0, 1, -1, 12, 123456, -7.25, 0.5, -0.001, 100, 1234567890123]
const EXPONENTS = [1e21, 1e-7, -2.5e30]

export const run = async (b, ctx) => {
  const r = ctx.rng
  const exponents = ctx.job.exponents === true
  // concrete values of leaves and keys
  const leaf = new Map(); const keys = new Map()
  const esc = s => (r.bool(0.15) ? `"${[...s].flatMap(c => c.split('')).map(c => (r.bool() ? `\\u${c.charCodeAt(0).toString(16).padStart(4, '0')}` : JSON.stringify(c).slice(1, -1))).join('')}"` : JSON.stringify(s))
  const ws = () => (r.bool(0.25) ? r.pick([' ', '\n', '  ', '\t', '\r\n']) : '')
  const distinct = ctx.job.distinct === true   // no part of a name reads like another name
  const nested = !distinct && r.bool(0.15)   // every name begins with the previous one
  const keyName = i => { if (!keys.has(i)) keys.set(i, i === -1 ? 'elements' : nested ? 'k'.repeat(i) : `${r.pick(['k', 'a b', 'é', '"q', '\\', 'elements', 'x:'])}${i}${distinct ? ';' : ''}`); return keys.get(i) }
  const build = v => v.t === 'obj'
    ? Object.fromEntries(v.items.map(([k, x]) => [keyName(k), build(x)]))
    : v.t === 'arr' ? v.items.map(([, x]) => build(x)) : leaf.get(v.i)
  // text, piece by piece: [separator, token]
  const pieces = []
  const frames = b.mode === 'array' ? ['arr'] : ['obj']
  let fresh = [true]
  const lead = b.mode === 'array' ? [['', `${ws()}{${ws()}`], ['', `"elements"${ws()}:${ws()}`], ['', `[`]] : [['', `${ws()}{`]]
  for (const t of b.toks) {
    let sep = ws()
    const first = fresh.at(-1)
    const closing = t.k === '}' || t.k === ']'
    const inObj = frames.at(-1) === 'obj'
    if (!closing && !first && !(inObj && t.k !== 'key')) sep += `,${ws()}`
    let text
    if (t.k === 'key') text = esc(keyName(t.i))
    else if (t.k === 'num') { const n = exponents ? r.pick(EXPONENTS) : r.pick(NUMBERS); leaf.set(t.i, n); text = JSON.stringify(n) }
    else if (t.k === 'str') { const s = r.pick(WORDS) + (r.bool() ? r.pick(WORDS) : ''); leaf.set(t.i, s); text = esc(s) }
    else if (t.k === 'lit') { const l = r.pick([true, false, null]); leaf.set(t.i, l); text = String(l) }
    else { text = t.k }
    if (inObj && t.k !== 'key' && !closing) sep = `${ws()}:${ws()}`
    pieces.push([sep, text])
    if (t.k !== 'key') fresh[fresh.length - 1] = false
    if (t.k === '{' || t.k === '[') { frames.push(t.k === '{' ? 'obj' : 'arr'); fresh.push(true) }
    if (closing) { frames.pop(); fresh.pop() }
    if (t.k === 'key') fresh[fresh.length - 1] = false
  }
  const tail = b.fin === 'close' ? (b.mode === 'array' ? `${ws()}]${ws()}}${ws()}` : `${ws()}}${ws()}`) : ''
  // what has arrived after n characters: index of last complete token, whether a token is partly there
  const marks = []
  let text = lead.map(p => p.join('')).join('')
  const start = text.length
  for (const [sep, tok] of pieces) { const from = text.length + sep.length; text += sep + tok; marks.push({ from, isKey: b.toks[marks.length].k === 'key', to: text.length, tok }) }
  const body0 = text.length
  text += tail
  const final = build(b.final)

  // the run
  const body = controlledBody()
  const output = b.mode === 'array' ? 'array' : r.pick([undefined, 'object'])
  const requests = []
  const res = await streamObject({ baseURL: 'http://srv.test/v1/', fetch: async (...a) => { requests.push(a); return streamResponse(body.stream) }, messages: [{ content: 'q', role: 'user' }], model: 'm', ...(output ? { output } : {}), schema: schemaOf(jsonSchema) })
  const main = b.mode === 'array' ? res.elementStream : res.partialObjectStream
  if ((b.mode === 'array') !== (res.partialObjectStream === undefined) || (b.mode === 'array') !== (res.elementStream !== undefined)) { ctx.diff('outcome', 'the wrong output stream is offered'); return }
  const out = collect(main)
  const unread = r.bool(0.2)
  const txt = unread ? undefined : collect(res.textStream)
  const steps = watchPromise(res.steps)
  const send = (s) => { body.push(bytesOf(`data: ${JSON.stringify({ choices: [{ delta: { content: s }, index: 0 }] })}\n\n`)) }

  const size = r.pick([1, 1, 3, 8, 30, 1000])
  let at = 0
  const partialOf = (p, v, t) => {
    // p: a snapshot; v: the final value; the last leaf may be incomplete
    if (typeof v !== 'object' || v === null) {
      if (typeof v === 'string') return typeof p === 'string' && (v.startsWith(p))
      if (typeof v === 'number') return typeof p === 'number' && (p === v || Math.abs(p) <= Math.abs(v))
      return p === v
    }
    if (typeof p !== 'object' || p === null || Array.isArray(p) !== Array.isArray(v)) return false
    const ks = Object.keys(p).filter(k => p[k] !== undefined)
    const all = Object.keys(v)
    if (Array.isArray(v)) return p.length <= v.length && p.every((x, i) => (i < p.length - 1 ? eq(x, v[i]) : partialOf(x, v[i])))
    return ks.every(k => Object.hasOwn(v, k)) && all.slice(0, ks.length).every(k => ks.includes(k)) && ks.every(k => (k !== all[ks.length - 1] ? eq(p[k], v[k]) : partialOf(p[k], v[k])))
  }
  // everything in `have` is in the snapshot
  const within = (have, snap) => {
    if (have.t === 'obj') return typeof snap === 'object' && snap !== null && !Array.isArray(snap) && have.items.every(([k, x]) => Object.hasOwn(snap, keyName(k)) && within(x, snap[keyName(k)]))
    if (have.t === 'arr') return Array.isArray(snap) && snap.length >= have.items.length && have.items.every(([, x], i) => within(x, snap[i]))
    return Object.is(snap, leaf.get(have.i)) || snap === leaf.get(have.i)
  }
  const say = (facet, msg) => ctx.diff(facet, `${msg}; text ${show(text.slice(0, at), 400)}`)
  let judged = 0; let seen = 0
  const flicker = new Set()
  const failAt = b.fin === 'error' ? text.length : -1
  while (at < text.length) {
    const n = Math.min(text.length, at + 1 + r.int(size))
    send(text.slice(at, n)); at = n
    await settle(3)
    if (exponents) continue
    const k = marks.findLastIndex(m => m.to <= at)          // last complete token
    const mid = marks[k + 1] && at > marks[k + 1].from ? marks[k + 1] : undefined
    // an escape that is not complete cannot be read yet
    const slack = mid !== undefined && mid.tok.slice(0, at - mid.from).includes('\\')
    judged++
    // known finding: a name that has arrived partly and reads like an earlier one hides that one for a moment
    let clash = false
    if (mid?.isKey) {
      const part = mid.tok.slice(1, at - mid.from).replace(/\\+$/, m => (m.length % 2 ? m.slice(1) : m))
      try { clash = [...keys.values()].includes(JSON.parse(`"${part}"`)) } catch {}
    }
    if (clash) for (let i = seen; i < out.items.length; i++) flicker.add(i)
    seen = out.items.length
    if (b.mode === 'array') {
      const now = k < 0 ? { begun: 0, whole: 0 } : b.log[k]
      const midBegins = mid && !['}', ']'].includes(mid.tok) && (k < 0 ? true : b.log[k].begun === b.log[k].whole) && b.log[k + 1].begun > now.begun
      const begun = now.begun + (midBegins && !slack ? 1 : 0)
      const least = slack ? 0 : Math.max(0, begun - 1)
      if (out.items.length < least) { say('prompt', `element ${out.items.length + 1} is not delivered although element ${out.items.length + 2} has begun`); return }
      if (out.items.length > now.whole) { say('elements', `element ${show(out.items.at(-1))} is delivered before it is complete`); return }
      if (out.items.some((x, i) => !eq(x, final[i]))) { say('elements', `elements ${show(out.items)}, expected ${show(final.slice(0, out.items.length))}`); return }
    }
    else if (!slack && k >= 0) {
      const snap = out.items.at(-1) ?? {}
      if (!within(b.log[k].have, snap)) {
        ctx.diff('prompt', `the last snapshot ${show(snap)} does not contain what has arrived; text ${show(text.slice(0, at), 400)}`, undefined, clash ? 'prefix-name' : undefined)
        if (!clash) return
      }
    }
    if (out.state !== 'open') { say('outcome', `the stream is ${out.state} ${show(out.error)} too early`); return }
  }
  if (txt && txt.items.join('') !== text) say('text', `the text stream delivered ${show(txt.items.join(''))}`)
  if (b.fin === 'error') body.error(new TypeError('terminated'))
  else body.close()
  await until(() => out.state !== 'open' && (!txt || txt.state !== 'open') && steps.state !== 'pending')
  if (b.fin === 'error') {
    if (out.state !== 'errored' || (txt && txt.state !== 'errored')) say('outcome', `after a broken body: output ${out.state}, text ${txt?.state}`)
    else if (txt && txt.error !== out.error) say('outcome', `the streams fail with different errors`)
    if (steps.state !== 'rejected') say('outcome', `after a broken body: steps ${steps.state}`)
  }
  else if (b.fin === 'close') {
    if (out.state !== 'closed' || (txt && txt.state !== 'closed') || steps.state !== 'resolved') { ctx.diff('outcome', `at the end: output ${out.state} ${show(out.error)}, text ${txt?.state}, steps ${steps.state}; text ${show(text)}`, undefined, exponents ? 'exponent' : undefined); return }
    const final2 = b.mode === 'array' ? out.items : out.items.at(-1) ?? {}
    if (!eq(final2, final)) { ctx.diff('elements', `delivered ${show(final2)}, expected ${show(final)} for ${show(text)}`, undefined, exponents ? 'exponent' : undefined); return }
    if (steps.value[0].text !== text) say('text', `the step's text is ${show(steps.value[0].text)}`)
    ctx.count(`close:${b.mode}`)
    if (final2.length === 0) ctx.count('emptyarray')
  }
  if (b.mode === 'object' && !exponents) {
    for (const [i, s] of out.items.entries()) {
      // against what arrived in the end: for a cut answer its own completion by the specification
      if (b.fin === 'close' && !flicker.has(i) && !partialOf(s, final)) { say('snapshots', `snapshot ${i + 1} ${show(s)} is not a partial version of ${show(final)}`); return }
      if (i > 0 && JSON.stringify(s) === JSON.stringify(out.items[i - 1])) { say('snapshots', `snapshot ${i + 1} repeats its predecessor: ${show(s)}`); return }
    }
    if (new Set(out.items).size !== out.items.length) say('snapshots', 'the same object is delivered twice')
  }
  if (requests.length !== 1) say('outcome', `${requests.length} requests`)
  if (ctx.unhandled.length && !exponents) ctx.diff('outcome', `unhandled ${show(ctx.unhandled[0])}`)
  ctx.count('judged', judged)
  return { mode: b.mode, text }
}
