// Runs TLC on a specification with given constants; returns the behaviours it printed and its counters.
import { spawn } from 'node:child_process'
import crypto from 'node:crypto'
import fs from 'node:fs'
import path from 'node:path'

const JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

/** JS value -> TLA+ expression. Sets are written {set:[...]}, raw TLA+ as {tla:'...'} */
export const tla = (v) => {
  if (typeof v === 'string') return JSON.stringify(v)
  if (typeof v === 'number') return String(v)
  if (typeof v === 'boolean') return v ? 'TRUE' : 'FALSE'
  if (Array.isArray(v)) return `<<${v.map(tla).join(', ')}>>`
  if (v && typeof v === 'object') {
    if ('set' in v) return `{${v.set.map(tla).join(', ')}}`
    if ('tla' in v) return v.tla
    return `[${Object.entries(v).map(([k, x]) => `${k} |-> ${tla(x)}`).join(', ')}]`
  }
  throw new Error(`cannot render ${v} as TLA+`)
}

export const S = (...xs) => ({ set: xs })

/**
 * job: { spec, consts, invariants, properties?, view?, constraint?, emit: bool, simulate?: {num, depth}, workers }
 */
export const runTLC = async (job, { workDir, specDir, seed, workers = 4, timeoutMs = 800_000 }) => {
  const name = `MC_${job.name.replace(/\W/g, '_')}`
  const dir = path.join(workDir, name)
  fs.mkdirSync(dir, { recursive: true })
  for (const f of fs.readdirSync(specDir))
    if (f.endsWith('.tla')) fs.copyFileSync(path.join(specDir, f), path.join(dir, f))
  for (const [f, content] of Object.entries(job.files ?? {}))
    fs.writeFileSync(path.join(dir, f), content)

  const consts = Object.entries(job.consts ?? {})
  fs.writeFileSync(path.join(dir, `${name}.tla`), [
    `---- MODULE ${name} ----`,
    `EXTENDS ${job.spec}`,
    ...consts.map(([k, v]) => `mc_${k} == ${tla(v)}`),
    ...(job.defs ?? []),
    '====',
    '',
  ].join('\n'))
  const invariants = [...(job.invariants ?? []), ...(job.emit === false ? [] : [job.emitter ?? 'Emit'])]
  fs.writeFileSync(path.join(dir, `${name}.cfg`), [
    `SPECIFICATION ${job.specification ?? 'Spec'}`,
    'CHECK_DEADLOCK FALSE',
    ...(consts.length ? ['CONSTANTS', ...consts.map(([k]) => `  ${k} <- mc_${k}`)] : []),
    ...invariants.map(i => `INVARIANT ${i}`),
    ...(job.properties ?? []).map(i => `PROPERTY ${i}`),
    ...(job.view ? [`VIEW ${job.view}`] : []),
    ...(job.constraint ? [`CONSTRAINT ${job.constraint}`] : []),
    ...(job.postcondition ? [`POSTCONDITION ${job.postcondition}`] : []),
    '',
  ].join('\n'))

  const args = ['-XX:+UseParallelGC', `-Xmx${job.xmx ?? '4g'}`, '-XX:TieredStopAtLevel=' + (job.c1 === false ? '4' : '4'),
    '-cp', JARS, 'tlc2.TLC',
    '-config', `${name}.cfg`, '-metadir', path.join(dir, 'meta'), '-noGenerateSpecTE',
    '-workers', String(job.workers ?? workers)]
  if (job.simulate)
    args.push('-simulate', `num=${job.simulate.num}`, '-depth', String(job.simulate.depth), '-seed', String(seed))
  args.push(`${name}.tla`)

  // For mutation campaigns only (many runs against different code with the same specifications): TLC's result can be reused.
  const cacheFile = process.env.VERIF_TLC_CACHE && path.join(process.env.VERIF_TLC_CACHE, `${crypto.createHash('sha1').update([...fs.readdirSync(dir).filter(f => /\.(tla|cfg|ndjson)$/.test(f)).sort().map(f => fs.readFileSync(path.join(dir, f), 'utf8')), seed, JSON.stringify(job.simulate ?? null)].join('\0')).digest('hex')}.json`)
  if (cacheFile && fs.existsSync(cacheFile)) return JSON.parse(fs.readFileSync(cacheFile, 'utf8'))

  const t0 = Date.now()
  const out = path.join(dir, 'out.txt')
  const fd = fs.openSync(out, 'w')
  const code = await new Promise((resolve, reject) => {
    const p = spawn('java', args, { cwd: dir, stdio: ['ignore', fd, fd] })
    const timer = setTimeout(() => p.kill('SIGKILL'), timeoutMs)
    p.on('error', reject)
    p.on('close', (c, sig) => { clearTimeout(timer); resolve(c ?? sig) })
  })
  fs.closeSync(fd)

  const behaviours = new Map()
  const other = []
  for (const line of fs.readFileSync(out, 'utf8').split('\n')) {
    if (line.startsWith('"@@')) {
      const json = JSON.parse(line).slice(2)
      behaviours.set(json, true)
    }
    else other.push(line)
  }
  const text = other.join('\n')
  const num = re => Number(([...text.matchAll(new RegExp(re, 'g'))].at(-1)?.[1] ?? '0').replace(/,/g, ''))
  const ok = code === 0 && (/No error has been found/.test(text) || (job.simulate && !/Error:/.test(text)))
  let states, transitions
  if (job.simulate) {
    transitions = num(/The number of states generated: ([\d,]+)/)
    states = transitions
  }
  else {
    transitions = num(/([\d,]+) states generated, [\d,]+ distinct/)
    states = num(/states generated, ([\d,]+) distinct/)
  }
  const result = {
    name: job.name, ok, code, text, states, transitions,
    behaviours: [...behaviours.keys()].sort(),
    ms: Date.now() - t0,
    dir,
  }
  if (cacheFile && ok) fs.writeFileSync(cacheFile, JSON.stringify(result))
  return result
}
