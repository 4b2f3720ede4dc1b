#!/usr/bin/env node
// usage: check.mjs <property id> [--tier quick|thorough]     (or VERIF_TIER, VERIF_SEED)
import { fork } from 'node:child_process'
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { fileURLToPath, pathToFileURL } from 'node:url'
import { bundle } from '../lib/bundle.mjs'
import { sample } from '../lib/sample.mjs'
import { runTLC } from '../lib/tlc.mjs'

const ROOT = path.dirname(path.dirname(fileURLToPath(import.meta.url)))
const id = process.argv[2]
const tierArg = process.argv.indexOf('--tier')
const tier = tierArg > 0 ? process.argv[tierArg + 1] : (process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick')
const seed = Number(process.env.VERIF_SEED ?? 1) || 1
const only = process.env.VERIF_JOB
const T0 = Date.now()
const log = (...a) => { if (process.env.VERIF_VERBOSE) console.error(...a) }

const def = (await import(pathToFileURL(path.join(ROOT, 'checks', `${id}.mjs`)).href)).default
const build = path.join(ROOT, '.build', `${id}-${process.pid}`)
fs.mkdirSync(build, { recursive: true })
const replayDir = path.join(ROOT, '.build', 'replays', id)
fs.rmSync(replayDir, { recursive: true, force: true })

const known = fs.readFileSync(path.join(ROOT, 'known-findings.txt'), 'utf8').split('\n')
  .map(l => /^finding: property=(\S+) key=(\S+) (.*)$/.exec(l)).filter(m => m && m[1] === id)
  .map(m => ({ key: m[2], text: m[3] }))

const CPUS = Math.max(2, Math.min(8, os.cpus().length))
const violations = []
const knownSeen = new Map()
const cov = { states: 0, transitions: 0, behaviours_generated: 0, replays: 0, traces_validated_against_impl: 0, recorded_traces: 0, per_job: [], counters: {}, samples: [] }
let infraError

const bundles = new Map()
const bundleFor = (driver) => {
  if (!bundles.has(driver)) {
    bundles.set(driver, (async () => {
      const entry = path.join(build, `entry_${driver}.mjs`)
      fs.writeFileSync(entry, `import { workerMain } from ${JSON.stringify(path.join(ROOT, 'harness/worker.mjs'))}\nimport * as driver from ${JSON.stringify(path.join(ROOT, 'harness/drivers', `${driver}.mjs`))}\nvoid workerMain(driver)\n`)
      const out = path.join(build, `worker_${driver}.mjs`)
      await bundle(entry, out)
      return out
    })())
  }
  return bundles.get(driver)
}

const runWorkers = async (job, behaviours, worker) => {
  const dir = path.join(build, `run_${job.name.replace(/\W/g, '_')}`)
  fs.mkdirSync(dir, { recursive: true })
  const behavioursFile = path.join(dir, 'behaviours.jsonl')
  fs.writeFileSync(behavioursFile, behaviours.join('\n'))
  const jobFile = path.join(dir, 'job.json')
  fs.writeFileSync(jobFile, JSON.stringify({ ...job, seed, behavioursFile }))
  const n = Math.min(CPUS, Number(process.env.VERIF_PROCS ?? CPUS), Math.max(1, Math.ceil(behaviours.length / 4)))
  const results = await Promise.all(Array.from({ length: n }, (_, i) => new Promise((resolve) => {
    const resultFile = path.join(dir, `result_${i}.json`)
    const progressFile = path.join(dir, `progress_${i}`)
    const p = fork(worker, [jobFile, String(i), String(n), resultFile, progressFile], {
      execArgv: ['--max-old-space-size=2500', '--no-warnings', '--enable-source-maps'],
      stdio: ['ignore', 'pipe', 'pipe', 'ipc'],
      env: { ...process.env, ...job.env },
    })
    let err = ''
    p.stdout.on('data', () => {})
    p.stderr.on('data', (d) => { if (err.length < 4000) err += d })
    let last = ''; let since = Date.now()
    const timer = setInterval(() => {
      let cur = ''
      try { cur = fs.readFileSync(progressFile, 'utf8') } catch {}
      if (cur !== last) { last = cur; since = Date.now() }
      else if (Date.now() - since > 60_000) { p.kill('SIGKILL') }
    }, 2000)
    p.on('close', (code, sig) => {
      clearInterval(timer)
      if (code === 0 && fs.existsSync(resultFile)) resolve(JSON.parse(fs.readFileSync(resultFile, 'utf8')))
      else {
        let at = ''
        try { at = fs.readFileSync(progressFile, 'utf8').trim() } catch {}
        resolve({ crashed: true, at, code, sig, err })
      }
    })
  })))
  const merged = { cases: 0, mismatches: [], counters: {}, samples: [], traces: [] }
  for (const r of results) {
    if (r.crashed) {
      const idx = Number(r.at.split(' ')[0])
      if (r.at === '' || Number.isNaN(idx)) { infraError ??= `worker failed to start (${r.code ?? r.sig}): ${r.err}`; continue }
      const [, rn, vs] = r.at.split(' ')
      merged.mismatches.push({ index: idx, render: Number(rn), variant: JSON.parse(vs ?? 'null'), behaviour: JSON.parse(behaviours[idx]), diffs: [{ facet: 'outcome', message: `the process hung or crashed while replaying this behaviour (${r.code ?? r.sig}) ${r.err.slice(0, 1500)}` }] })
      continue
    }
    merged.cases += r.cases
    merged.mismatches.push(...r.mismatches)
    merged.samples.push(...r.samples)
    merged.traces.push(...r.traces)
    for (const [k, v] of Object.entries(r.counters)) merged.counters[k] = (merged.counters[k] ?? 0) + v
  }
  return merged
}

const recordMismatches = (job, mismatches) => {
  for (const m of mismatches) {
    const unlisted = m.diffs.filter(d => !(d.known && known.some(k => k.key === d.known)))
    for (const d of m.diffs) if (d.known && known.some(k => k.key === d.known)) knownSeen.set(d.known, (knownSeen.get(d.known) ?? 0) + 1)
    if (unlisted.length === 0) continue
    if (violations.length < 20) {
      fs.mkdirSync(replayDir, { recursive: true })
      const file = path.join(replayDir, `${violations.length}.json`)
      fs.writeFileSync(file, JSON.stringify({ property: id, job: { ...job, files: undefined }, seed, ...m, diffs: unlisted }, null, 1))
      violations.push({ file, m, unlisted })
    }
    else violations.push({ m, unlisted })
  }
}

const runJob = async (job) => {
  const t0 = Date.now()
  let behaviours = []
  let tlc
  if (job.spec) {
    tlc = await runTLC(job, { workDir: build, specDir: path.join(ROOT, 'specs'), seed, workers: job.workers ?? 4 })
    if (!tlc.ok) {
      infraError ??= `TLC failed on ${job.name} (${tlc.code}):\n${tlc.text.slice(-3000)}`
      return
    }
    behaviours = tlc.behaviours
    cov.states += tlc.states; cov.transitions += tlc.transitions
    cov.behaviours_generated += behaviours.length
  }
  const info = { job: job.name, spec: job.spec, mode: !job.spec ? (job.traceSpec ? 'recorded executions' : 'fixed runs') : job.simulate ? 'simulate' : job.emit === false ? 'model check' : 'exhaustive', constants: job.spec ? Object.fromEntries(Object.entries(job.consts ?? {}).map(([k, v]) => [k, JSON.stringify(v)])) : undefined, states: tlc?.states, transitions: tlc?.transitions, behaviours: behaviours.length, tlc_ms: tlc?.ms }
  cov.per_job.push(info)
  if (!job.driver) { log(job.name, info.states, 'states', tlc?.ms, 'ms'); return }
  if (job.spec && behaviours.length === 0) { infraError ??= `TLC printed no behaviour for ${job.name}`; return }
  if (!job.spec) behaviours = Array.from({ length: job.runs ?? 1 }, (_, i) => JSON.stringify({ run: i }))
  const limit = Math.min(job.limit ?? Infinity, Number(process.env.VERIF_LIMIT ?? Infinity)) // the variable: mutation campaigns only
  behaviours = sample(behaviours, limit)
  info.replayed_behaviours = behaviours.length
  const t1 = Date.now()
  const res = await runWorkers(job, behaviours, await bundleFor(job.driver))
  info.replays = res.cases
  info.replay_ms = Date.now() - t1
  cov.replays += res.cases
  cov.traces_validated_against_impl += res.cases
  for (const [k, v] of Object.entries(res.counters)) cov.counters[k] = (cov.counters[k] ?? 0) + v
  if (cov.samples.length < 3 && res.samples[0]) cov.samples.push({ job: job.name, ...res.samples[0] })
  recordMismatches(job, res.mismatches)
  if (job.expectCounters && !process.env.VERIF_LIMIT) {
    for (const [k, min] of Object.entries(job.expectCounters))
      if ((res.counters[k] ?? 0) < min && res.mismatches.length === 0) infraError ??= `vacuity guard: counter ${k} of ${job.name} is ${res.counters[k] ?? 0}, expected at least ${min}`
  }
  if (job.traceSpec && res.mismatches.length === 0)
    await validateTraces(job, res.traces, info)
  log(job.name, behaviours.length, 'behaviours', res.cases, 'replays', res.mismatches.length, 'mismatches', `tlc ${tlc?.ms} ms, replay ${info.replay_ms} ms, total ${Date.now() - t0} ms`)
}

// Recorded traces, checked against a trace specification: TLC must accept every one of them.
const validateTraces = async (job, traces, info) => {
  if (traces.length === 0) { infraError ??= `no traces recorded by ${job.name}`; return }
  const tj = { ...job.traceSpec, name: `${job.name}_trace`, emit: false, files: { 'traces.ndjson': traces.map(t => JSON.stringify(t)).join('\n') } }
  const r = await runTLC(tj, { workDir: build, specDir: path.join(ROOT, 'specs'), seed, workers: 4 })
  info.trace_states = r.states; info.trace_transitions = r.transitions; info.traces = traces.length
  cov.states += r.states; cov.transitions += r.transitions
  // the trace spec prints <<"@@ACC", i>> for each accepted trace
  const accepted = new Set([...r.text.matchAll(/<<"ACC", (\d+)>>/g)].map(m => Number(m[1])))
  if (!r.ok && accepted.size === 0 && !/is violated/.test(r.text)) { infraError ??= `TLC failed on ${tj.name}:\n${r.text.slice(-3000)}`; return }
  cov.recorded_traces += traces.length
  cov.traces_validated_against_impl += accepted.size
  info.traces_accepted = accepted.size
  const rejected = traces.map((t, i) => [t, i + 1]).filter(([, i]) => !accepted.has(i)).slice(0, 25)
  if (rejected.length === 0) return
  // how far the specification could follow the rejected ones
  const again = await runTLC({ ...tj, name: `${job.name}_rejected`, invariants: [...tj.invariants, 'Progress'], files: { 'traces.ndjson': rejected.map(([t]) => JSON.stringify(t)).join('\n') } }, { workDir: build, specDir: path.join(ROOT, 'specs'), seed, workers: 4 })
  const reached = new Map()
  for (const m of again.text.matchAll(/<<"AT", (\d+), (\d+)>>/g)) reached.set(Number(m[1]), Math.max(reached.get(Number(m[1])) ?? 0, Number(m[2])))
  const violated = /Invariant (\w+) is violated/.exec(r.text)?.[1]
  recordMismatches(job, rejected.map(([t, i], k) => {
    const l = reached.get(k + 1) ?? 1
    return { index: i, behaviour: t, diffs: [{ facet: 'trace', message: `a recorded execution of the real code is not a behaviour of the specification${violated ? ` (${violated} is violated)` : ''}: entry ${l} ${JSON.stringify(t.t[l - 1])?.slice(0, 300) ?? '(end)'} cannot follow ${JSON.stringify(t.t.slice(Math.max(0, l - 6), l - 1).map(x => ({ ...x, msgs: undefined }))).slice(0, 500)}` }] }
  }))
}

const jobs = def.jobs({ tier, S: (...xs) => ({ set: xs }) }).filter(j => !only || j.name === only)
// run jobs with bounded parallelism
const queue = [...jobs]
const lanes = def.lanes ?? 3
await Promise.all(Array.from({ length: lanes }, async () => {
  while (queue.length > 0) {
    const j = queue.shift()
    try { await runJob(j) }
    catch (e) { infraError ??= `${j.name}: ${e?.stack ?? e}` }
  }
}))

const wall = (Date.now() - T0) / 1000
fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true })
fs.writeFileSync(path.join(ROOT, 'evidence', `${id}.json`), JSON.stringify({
  property: id, tier, seed, level: def.level ?? 'model_checking',
  // exhaustive: every behaviour of the non-random jobs was replayed
  coverage: { ...cov, replays: undefined, exhaustive: (def.exhaustive ?? false) && !cov.per_job.some(j => j.mode === 'exhaustive' && j.replayed_behaviours < j.behaviours), rule: def.rule },
  assumptions: def.assumptions ?? [],
  wall_s: wall,
  violations: violations.length,
}, null, 1))
fs.rmSync(build, { recursive: true, force: true })

for (const k of known)
  if (knownSeen.has(k.key)) console.log(`KNOWN-FINDING: property=${id} ${k.text}`)

if (violations.length > 0) {
  for (const v of violations.slice(0, 5)) {
    console.log(`VIOLATION property=${id} replay=${v.file ?? violations[0].file}`)
    for (const d of v.unlisted.slice(0, 4)) console.log(`  [${d.facet}] ${d.message}${d.detail ? `\n     ${d.detail}` : ''}`)
  }
  console.log(`${violations.length} behaviours of the specification are not followed by the code (${wall.toFixed(1)} s)`)
  process.exit(1)
}
if (infraError) {
  console.error(`check ${id} could not be completed: ${infraError}`)
  process.exit(3)
}
console.log(`${id}: ${cov.states} states, ${cov.transitions} transitions, ${cov.behaviours_generated} behaviours, ${cov.replays} replays, ${cov.recorded_traces} recorded traces; no violation (${wall.toFixed(1)} s)`)
