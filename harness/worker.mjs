// Worker process: replays a slice of behaviours through one driver. Bundled together with the driver.
import fs from 'node:fs'
import { hash, rng } from './core.mjs'

export const workerMain = async (driver) => {
  const [, , jobFile, slice, of, resultFile, progressFile] = process.argv
  const job = JSON.parse(fs.readFileSync(jobFile, 'utf8'))
  const lines = fs.readFileSync(job.behavioursFile, 'utf8').split('\n').filter(Boolean)
  const from = Number(slice); const step = Number(of)
  const pfd = fs.openSync(progressFile, 'w')

  const unhandled = []
  process.on('unhandledRejection', (e) => { unhandled.push(e) })
  process.on('uncaughtException', (e) => { unhandled.push(e) })

  if (driver.setup) await driver.setup(job)

  const result = { cases: 0, mismatches: [], counters: {}, samples: [], traces: [] }
  const count = (k, n = 1) => { result.counters[k] = (result.counters[k] ?? 0) + n }
  const renders = job.renders ?? 1
  // several behaviours at once: the replays know nothing of each other
  const k = job.together ?? 1
  outer:
  for (let i = from; i < lines.length; i += step * k) {
    const group = Array.from({ length: k }, (_, j) => lines[i + j * step]).filter(x => x !== undefined).map(x => JSON.parse(x))
    const behaviour = k === 1 ? group[0] : { together: group }
    for (let r = 0; r < renders; r++) {
      for (const variant of job.variants ?? [null]) {
        fs.writeSync(pfd, `${i} ${r} ${JSON.stringify(variant)}\n`.padEnd(200), 0)
        const seed = hash(`${job.seed}/${job.name}/${i}/${r}`)
        const diffs = []
        unhandled.length = 0
        const ctx = {
          job, variant, renderNo: r,
          rng: rng(seed),
          diff: (facet, message, detail, known) => diffs.push({ facet, message, detail, known }),
          count,
          unhandled,
          trace: t => result.traces.push(t),
        }
        let sample
        try {
          sample = k === 1
            ? await driver.run(behaviour, ctx)
            : (await Promise.all(group.map(async (b, j) => driver.run(b, { ...ctx, diff: (f, message, ...rest) => ctx.diff(f, `${j + 1} of ${group.length} at once: ${message}`, ...rest), rng: rng(hash(`${seed}/${j}`)) }))))[0]
        }
        catch (err) {
          diffs.push({ facet: 'outcome', message: `the replay could not be completed: ${err?.stack ?? err}` })
        }
        result.cases++
        const relevant = diffs.filter(d => d.known || !job.facets || d.facet === 'outcome' || job.facets.includes(d.facet))
        for (const d of diffs) if (!relevant.includes(d)) count(`other-facet:${d.facet}`)
        // a finding that may be listed is kept once per key; the others are only counted
        const fresh = relevant.some(d => !d.known || !(`known:${d.known}` in result.counters))
        for (const d of relevant) if (d.known) count(`known:${d.known}`)
        if (relevant.length > 0 && fresh) {
          result.mismatches.push({ index: i, render: r, variant, seed, behaviour, diffs: relevant })
          if (result.mismatches.length >= 25) break outer
        }
        if (result.samples.length < 1 && i === from && sample !== undefined)
          result.samples.push(sample)
      }
    }
  }
  fs.writeFileSync(resultFile, JSON.stringify(result))
  process.exit(0)
}
