// Replays two ChatLoop behaviours at the same time, their environments acting in the order of a Runs behaviour.
import { hash, rng } from '../core.mjs'
import { resetSpans } from '../otel.mjs'
import { run as runOne, setup as setupOne } from './chat.mjs'

export const setup = setupOne

const FLAVOURS = { gen: ['gen', 'gen', 'tgen'], resp: ['resp'], stream: ['stream', 'stream', 'tstream'] }
// with tracing the instrumented ones are of interest
const TRACED = { gen: ['gen', 'tgen', 'tgen', 'tgen'], resp: ['resp'], stream: ['stream', 'tstream', 'tstream', 'tstream'] }

export const run = async (b, ctx) => {
  // whose turn it is
  const order = [...b.order]
  let active
  const waiting = {}
  const grant = () => {
    if (active !== undefined || order.length === 0) return
    const who = order[0]
    if (!waiting[who]) return
    order.shift()
    active = who
    const go = waiting[who]
    delete waiting[who]
    go()
  }
  const release = (who) => { if (active === who) active = undefined }
  const turn = who => new Promise((resolve) => { release(who); waiting[who] = resolve; grant() })
  const over = (who) => {
    release(who)
    for (let i = order.length - 1; i >= 0; i--) if (order[i] === who) order.splice(i, 1)
    grant()
  }

  const realFetch = globalThis.fetch
  globalThis.fetch = async () => { throw new Error('global fetch used') }
  const seed = ctx.rng.int(2 ** 30)
  // twins draw the same values: alike models, call ids, arguments
  const twins = ctx.rng.bool(0.3)
  const flavours = Object.fromEntries(['a', 'b'].map(who => [who, ctx.rng.pick((ctx.job.otel ? TRACED : FLAVOURS)[b[who].api])]))
  resetSpans()
  // often the runs use the very same tools; a call belongs to the run whose signal it carries
  // (half: the same descriptions, with functions of their own)
  let kit
  if (ctx.rng.bool(0.65)) {
    const half = ctx.rng.bool(0.3)
    const names = ctx.rng.shuffle(['weather', 'add', 'näme', 'x-1', 'a']).slice(0, 3)
    const owners = new Map()
    kit = {
      half,
      names,
      owners,
      tools: names.map(name => ({
        execute: (input, o) => {
          const owner = owners.get(o.abortSignal)
          if (!owner) { ctx.diff('tools', `call ${o.toolCallId} of ${name} carries the signal of no run`); return '' }
          return owner(name, input, o)
        },
        function: { description: `does ${name}`, name, parameters: { properties: { a: { type: 'string' } }, type: 'object' }, strict: true },
        type: 'function',
        validate: v => ({ value: v }),
      })),
    }
    ctx.count(half ? 'same descriptions' : 'same tools')
  }
  try {
    await Promise.all(['a', 'b'].map(async (who) => {
      try {
        await runOne({ ...b[who], sp: ctx.job.otel && flavours[who].startsWith('t') ? b[who].sp : undefined }, {
          ...ctx,
          rng: rng(hash(twins ? `${seed}` : `${seed}/${who}`)),
          variant: { flavour: flavours[who] },
          diff: (facet, message, detail, known) => ctx.diff(facet, `run ${who} (${flavours[who]}): ${message}`, detail, known),
          kit,
          shared: true,
          tag: who,
          turn: () => turn(who),
        })
      }
      finally { over(who) }
    }))
  }
  finally { globalThis.fetch = realFetch }
  const switches = b.order.filter((w, i) => i > 0 && b.order[i - 1] !== w).length
  ctx.count(`switches:${Math.min(switches, 6)}`)
  ctx.count(`pair:${b.a.err ? 'failed' : 'ok'}+${b.b.err ? 'failed' : 'ok'}`)
  return { flavours, order: b.order.join('') }
}
