// helpers shared by the demonstrations; run with cwd /repo
import assert from 'node:assert/strict'
export { assert }
export const pkg = p => import(`${process.cwd()}/${p}/src/index.ts`)
export const mod = p => import(`${process.cwd()}/${p}`)
export const sse = (...msgs) => new Response(msgs.map(m => `data: ${typeof m === 'string' ? m : JSON.stringify(m)}\n\n`).join(''), { headers: { 'Content-Type': 'text/event-stream' } })
export const chunk = (delta, more = {}) => ({ choices: [{ delta, index: 0, ...more }] })
export const call = (id, name, args, index = 0) => ({ function: { arguments: args, name }, id, index, type: 'function' })
export const answer = (message, more = {}) => Response.json({ choices: [{ finish_reason: 'stop', index: 0, message: { role: 'assistant', ...message } }], usage: { completion_tokens: 1, prompt_tokens: 1, total_tokens: 2 }, ...more })
/** a fetch that answers from a list of functions (request body, init) => Response */
export const server = (...answers) => {
  const requests = []
  const fetch = async (url, init) => {
    const body = typeof init?.body === 'string' ? JSON.parse(init.body) : init?.body
    requests.push({ body, init, url: String(url) })
    const a = answers[Math.min(requests.length, answers.length) - 1]
    return typeof a === 'function' ? a(body, init, String(url)) : a
  }
  return { fetch, requests }
}
export const read = async (stream) => { const out = []; for await (const x of stream) out.push(x); return out }
export const tool = (name, execute, more = {}) => ({ execute, function: { name, parameters: { properties: {}, type: 'object' } }, type: 'function', ...more })
export const sleep = ms => new Promise(r => setTimeout(r, ms))
export const main = async (f) => {
  const timer = setTimeout(() => { console.error('demo: timed out'); process.exit(1) }, 60_000)
  try { await f(); clearTimeout(timer); console.log('holds'); process.exit(0) }
  catch (e) { console.error(e); process.exit(1) }
}
