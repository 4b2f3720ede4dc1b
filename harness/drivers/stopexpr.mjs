// Replays StopExpr: the condition evaluated after every history, and in runs of the three loops.
import { generateText } from 'repo:packages/generate-text'
import { and, hasToolCall, not, or, shouldStop, stepCountAtLeast } from 'repo:packages/shared-chat'
import { streamText } from 'repo:packages/stream-text'
import * as rsp from 'repo:packages-ext/responses'
import { bytesOf, jsonResponse, show, streamResponse } from '../core.mjs'

const freeze = (x) => { if (x && typeof x === 'object' && !Object.isFrozen(x)) { Object.freeze(x); Object.values(x).forEach(freeze) } return x }
const NAMES = { '*': undefined, 'a': 'alpha', 'b': 'alp', 'c': 'Alpha' }

const build = (e, r, own) => {
  switch (e.o) {
    case 'count': return stepCountAtLeast(e.n)
    case 'call': return e.nm === '*' ? (r.bool() ? hasToolCall() : hasToolCall(undefined)) : hasToolCall(NAMES[e.nm])
    case 'const': return (ctx) => { own.push(ctx); return e.v }
    case 'and': return and(...e.xs.map(x => build(x, r, own)))
    case 'or': return or(...e.xs.map(x => build(x, r, own)))
    default: return not(build(e.x, r, own))
  }
}
const stepOf = tools => ({ finishReason: tools.length ? 'tool-calls' : 'stop', text: 't', toolCalls: tools.map((t, i) => ({ args: '{}', toolCallId: `c${i}`, toolCallType: 'function', toolName: NAMES[t] })), toolResults: [] })

const server = (h, api, log) => async (url, init) => {
  log.push(init)
  const tools = h[log.length - 1]
  if (tools === undefined) return new Response('too many requests', { status: 400 })
  if (api === 'gen') return jsonResponse({ choices: [{ finish_reason: tools.length ? 'tool_calls' : 'stop', index: 0, message: { content: 'x', role: 'assistant', ...(tools.length ? { tool_calls: tools.map((t, i) => ({ function: { arguments: '{}', name: NAMES[t] }, id: `c${i}`, type: 'function' })) } : {}) } }], usage: { completion_tokens: 1, prompt_tokens: 1, total_tokens: 2 } })
  const events = api === 'stream'
    ? [...tools.map((t, i) => ({ choices: [{ delta: { tool_calls: [{ function: { arguments: '{}', name: NAMES[t] }, id: `c${i}`, index: i, type: 'function' }] }, index: 0 }] })), { choices: [{ delta: { content: tools.length ? undefined : 'x' }, finish_reason: tools.length ? 'tool_calls' : 'stop', index: 0 }] }]
    : (() => { const items = tools.map((t, i) => ({ arguments: '{}', call_id: `c${i}`, id: `i${i}`, name: NAMES[t], status: 'completed', type: 'function_call' })); return [{ response: {}, type: 'response.created' }, ...items.map(item => ({ item, type: 'response.output_item.done' })), { response: { output: items, status: 'completed' }, type: 'response.completed' }] })()
  return streamResponse(new Blob([bytesOf(events.map(e => `data: ${JSON.stringify(e)}\n\n`).join(''))]).stream())
}

export const run = async (b, ctx) => {
  const r = ctx.rng
  const own = []
  const cond = build(b.e, r, own)
  const input = freeze([{ content: 'q', role: 'user' }])
  const order = r.shuffle(b.table)
  for (let round = 0; round < 2; round++) {
    for (const { h, v } of order) {
      const steps = h.map(stepOf)
      const context = freeze({ input, step: steps.at(-1), steps })
      own.length = 0
      const got = r.bool() ? cond(context) : shouldStop(cond, context)
      if (got !== v) { ctx.diff('value', `${show(b.e)} is ${show(got)} after ${show(h)}, expected ${v}`); return }
      if (own.some(c => c !== context)) { ctx.diff('context', `a condition inside ${show(b.e)} saw another context`); return }
    }
  }
  ctx.count('evaluated', b.table.length * 2)
  // the same condition object in runs
  for (let i = 0; i < (ctx.job.runsEach ?? 3); i++) {
    const row = r.pick(b.table)
    const h = [...row.h]
    const at = row.at
    const api = r.pick(['gen', 'stream', 'resp'])
    const log = []
    const tools = ['alpha', 'alp', 'Alpha'].map(name => ({ execute: () => 'ok', function: { name, parameters: { type: 'object' } }, type: 'function' }))
    // the last step has to end the run by itself if the condition does not
    if (row.at === h.length && h.at(-1).length > 0 && !row.v) h.push([])
    const expected = h.length > row.h.length && !row.v ? undefined : at
    const o = { baseURL: 'http://srv.test/v1/', fetch: server(h, api, log), model: 'm', stopWhen: cond, tools, ...(api === 'resp' ? { input: 'q' } : { messages: [{ content: 'q', role: 'user' }] }) }
    let n
    try {
      if (api === 'gen') n = (await generateText(o)).steps.length
      else { const res = api === 'stream' ? streamText(o) : rsp.responses(o); n = (await res.steps).length }
    }
    catch (e) { ctx.diff('run', `${api}: a run over ${show(h)} failed with ${e}`); return }
    const want = expected ?? row.h.length + 1
    if (n !== want || log.length !== want) { ctx.diff('run', `${api}: a run over ${show(h)} with ${show(b.e)} made ${log.length} requests and ${n} steps, expected ${want}`); return }
    ctx.count(`run:${api}`)
  }
  if (ctx.unhandled.length) ctx.diff('outcome', `unhandled ${show(ctx.unhandled[0])}`)
  return { e: b.e }
}
