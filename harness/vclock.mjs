// A virtual clock: replaces the timers of this process while f runs.
import { settle } from './core.mjs'

export const withClock = async (f) => {
  const saved = { clearInterval: globalThis.clearInterval, clearTimeout: globalThis.clearTimeout, setInterval: globalThis.setInterval, setTimeout: globalThis.setTimeout }
  const savedNow = Date.now
  const timers = new Map()
  let nextId = 1
  const clock = {
    now: 0,
    timers,
    /** lets time pass, firing what is due in order */
    async to(t) {
      while (true) {
        const due = [...timers].filter(([, x]) => x.at <= t).sort((x, y) => x[1].at - y[1].at || x[1].seq - y[1].seq)[0]
        if (!due) break
        timers.delete(due[0])
        clock.now = Math.max(clock.now, due[1].at)
        due[1].fn(); await settle(2)
      }
      clock.now = t
      await settle(2)
    },
  }
  globalThis.setTimeout = (fn, ms = 0, ...a) => { const id = nextId++; timers.set(id, { at: clock.now + (ms > 0 ? ms : 0), fn: () => fn(...a), seq: id }); return id }
  globalThis.clearTimeout = (id) => { timers.delete(id) }
  Date.now = () => 1_700_000_000_000 + clock.now
  try { return await f(clock) }
  finally { Object.assign(globalThis, saved); Date.now = savedNow }
}
