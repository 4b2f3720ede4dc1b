// Replays Messages: builds the conversation with the helpers, compares every message, sends it and compares the request.
import { generateText } from 'repo:packages/generate-text'
import { streamText } from 'repo:packages/stream-text'
import { message as u } from 'repo:packages/utils-chat'
import { eq, show, text } from '../core.mjs'

export const run = async (b, ctx) => {
  const r = ctx.rng; let n = 0
  const call = () => ({ ...(r.bool(0.2) ? { extra_content: { google: { thought_signature: `s${n}` } }, index: n } : {}), function: { arguments: r.pick(['{}', '', '{"a":1}']), name: `f${++n}` }, id: `id${n}`, type: 'function' })
  const part = (k) => {
    const t = text(r, `t${++n}`); const url = `data:image/png;base64,${n}`
    switch (k) {
      case 'call': return [call()].map(c => [c, c])[0]
      case 'image': return [u.imagePart(url), { image_url: { url }, type: 'image_url' }]
      case 'refusal': return [{ refusal: t, type: 'refusal' }, { refusal: t, type: 'refusal' }]
      case 'stump': { const x = r.pick([{ id: 'x', type: 'function' }, { function: 'f', id: 'x', type: 'function' }, { function: {}, type: 'function' }, { function: {}, id: 'x', type: 'tool' }]); return [x, x] }
      default: return [u.textPart(t), { text: t, type: 'text' }]
    }
  }
  const built = []; const want = []
  for (const m of b.msgs) {
    let given; let exp
    if (m.content.k === 'text') { given = exp = r.pick([text(r, `c${++n}`), '']) }
    else { const ps = m.content.parts.map(part); given = ps.map(p => p[0]); exp = ps.map(p => p[1]); if (m.content.k === 'one') { given = given[0] } }
    const before = JSON.stringify(given)
    const c = call()
    built.push(m.role === 'tool' ? u.tool(given, c) : u[m.role](given))
    want.push(m.calls ? { role: m.role, tool_calls: exp } : { content: exp, role: m.role, ...(m.role === 'tool' ? { tool_call_id: c.id } : {}) })
    if (JSON.stringify(given) !== before) ctx.diff('message', `${m.role} modified its content`)
    if (m.role === 'assistant' && u.isToolCall(given) !== m.calls) ctx.diff('message', `isToolCall(${show(given)}) is ${u.isToolCall(given)}`)
    if (!eq(built.at(-1), want.at(-1))) ctx.diff('message', `${m.role}(${show(given)}) is ${show(built.at(-1))}, expected ${show(want.at(-1))}`)
    ctx.count(m.calls ? 'calls' : m.role)
  }
  const all = u.messages(...built)
  if (!eq(all, want)) ctx.diff('message', `messages(...) is ${show(all)}, expected ${show(want)}`)
  let sent
  const fetch = async (_, init) => { sent = JSON.parse(init.body); return new Response(sent.stream ? 'data: {"choices":[{"delta":{"content":"x"},"index":0,"finish_reason":"stop"}]}\n\n' : '{"choices":[{"message":{"role":"assistant","content":"x"},"finish_reason":"stop"}],"usage":{"prompt_tokens":1,"completion_tokens":1,"total_tokens":2}}') }
  const options = { baseURL: 'http://api.test/', fetch, messages: all, model: 'm' }
  if (ctx.variant.api === 'gen') await generateText(options)
  else { const s = streamText(options); await s.messages; await s.textStream.cancel() }
  if (!eq(sent?.messages, want)) ctx.diff('sent', `sent ${show(sent?.messages)}, expected ${show(want)}`)
  return { msgs: b.msgs }
}
