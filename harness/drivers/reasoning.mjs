// Replays Reasoning: the text in pieces, every piece compared with what the specification has let out by then.
import { extractReasoning, extractReasoningStream } from 'repo:packages/utils-reasoning'
import { collect, settle, show, until } from '../core.mjs'

const SEPS = [undefined, '\n', '', ' | ', '---', '<', '§§']
const NAMES = ['think', 'thought', 't', 'tt', 'a+b', 'r.e', 'x-y:z', '思考', '<']
const PLAIN = ['q', 'é', '🙂', '\n', ' ', '&', '日', '\r\n', '"', 'Q', '0', '\\', '$&']

const cut = (cs, r, mode) => {
  if (mode === 0) return [cs.length]
  const out = []
  for (let i = 0; i < cs.length;) { const k = mode === 1 ? 1 : 1 + r.int(mode === 2 ? 3 : 8); out.push(Math.min(cs.length, i + k)); i += k }
  return out.length ? out : [0]
}

export const run = async (b, ctx) => {
  const r = ctx.rng
  // one abstract character may stand for several concrete ones; all occurrences of it for the same
  const single = b.tag.length === 1 && b.tag[0] === 't' ? r.pick(NAMES) : undefined
  const map = { '<': '<', '>': '>', '/': '/', 't': single ?? 't', 'u': 'u', 'x': r.pick(PLAIN), 'y': r.pick(PLAIN) }
  if (single === '<') return   // it would coincide with the bracket
  const tagName = b.tag.map(c => map[c]).join('')
  const separator = r.pick(SEPS)
  const sep = separator ?? '\n'
  const put = cs => cs.map(c => (c === '|' ? sep : map[c])).join('')
  const options = { ...(separator === undefined && r.bool() ? {} : { separator }), ...(b.start ? { startWithReasoning: true } : r.bool(0.3) ? { startWithReasoning: false } : {}), tagName }
  const bare = tagName === 'think' && separator === undefined && !b.start && r.bool()

  for (const mode of ctx.job.modes ?? [0, 1, 2]) {
    let c
    const input = new ReadableStream({ start: (x) => { c = x } })
    const res = bare ? extractReasoningStream(input) : extractReasoningStream(input, options)
    const T = collect(res.textStream); const R = collect(res.reasoningStream)
    let at = 0
    for (const to of cut(b.s, r, mode)) {
      if (r.bool(0.05)) c.enqueue('')
      c.enqueue(put(b.s.slice(at, to)))
      at = to
      await settle(2)
      const [t, n] = to === 0 ? [0, 0] : b.log[to - 1]
      // a character that stands for several may leave a part of them for the next piece
      const wantT = put(b.T.slice(0, t)); const wantR = put(b.R.slice(0, n))
      const gotT = T.items.join(''); const gotR = R.items.join('')
      if (gotT !== wantT || gotR !== wantR) {
        ctx.diff('pieces', `tag ${tagName}, after ${show(put(b.s.slice(0, to)))} (mode ${mode}): text ${show(gotT)}, reasoning ${show(gotR)}; expected ${show(wantT)}, ${show(wantR)}; separator ${show(sep)}, start ${b.start}`)
        return
      }
      if (T.state !== 'open' || R.state !== 'open') { ctx.diff('outcome', `a stream ended early: ${T.state} ${R.state}`); return }
    }
    if (b.fin === 'error') {
      const err = new Error('input failed')
      c.error(err)
      await until(() => T.state !== 'open' && R.state !== 'open')
      if (T.state !== 'errored' || R.state !== 'errored' || T.error !== err || R.error !== err) ctx.diff('error', `after an input error the streams are ${T.state} ${show(T.error)} and ${R.state} ${show(R.error)}`)
    }
    else {
      c.close()
      await until(() => T.state !== 'open' && R.state !== 'open')
      if (T.state !== 'closed' || R.state !== 'closed') { ctx.diff('outcome', `the streams are ${T.state} ${show(T.error)} and ${R.state}`); return }
    }
    const gotT = T.items.join(''); const gotR = R.items.join('')
    if (gotT !== put(b.T) || gotR !== put(b.R)) ctx.diff('end', `tag ${tagName}, ${show(put(b.s))} (mode ${mode}): text ${show(gotT)}, reasoning ${show(gotR)}; expected ${show(put(b.T))}, ${show(put(b.R))}; separator ${show(sep)}, start ${b.start}`)
    if ([...T.items, ...R.items].includes('')) ctx.diff('end', 'an empty piece was emitted')
    ctx.count(`fin:${b.fin}`)
  }
  if (b.fin === 'close' && b.closed) {
    const whole = put(b.s)
    const res = bare ? extractReasoning(whole) : extractReasoning(whole, options)
    const got = [res.text, res.reasoning ?? '']; const want = [put(b.T), put(b.R)]
    const clean = x => (sep === '' ? x : x.split(sep).join(''))
    const same = b.filled ? got[0] === want[0] && got[1] === want[1] : clean(got[0]) === clean(want[0]) && clean(got[1]) === clean(want[1])
    if (!same) ctx.diff('whole', `extractReasoning(${show(whole)}, ${show(options)}) = ${show(res)}, expected ${show(want)}`)
    if (b.tags === 0 && res.reasoning !== undefined) ctx.diff('whole', `reasoning ${show(res.reasoning)} in a text without a block`)
    ctx.count(b.filled && b.tags > 1 ? 'whole:exact' : 'whole:loose')
  }
  if (ctx.unhandled.length) ctx.diff('outcome', `unhandled ${show(ctx.unhandled[0])}`)
  return { end: b.fin, text: put(b.s) }
}
