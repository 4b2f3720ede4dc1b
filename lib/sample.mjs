// Which behaviours to replay when there are more than the tier allows: half of them evenly spread over the sorted list,
// the other half drawn in proportion to how rare the things that happen in them are. Deterministic.

const sig = (x) => {
  if (x === null || typeof x !== 'object') return String(x)
  if (Array.isArray(x)) return `#${x.length}`
  return Object.keys(x).sort().filter(k => ['string', 'boolean'].includes(typeof x[k])).map(k => `${k}:${x[k]}`).join(',')
}

const features = (v, path, out) => {
  if (Array.isArray(v)) {
    out.add(`${path}#${v.length}`)
    for (let i = 0; i < v.length; i++) {
      features(v[i], `${path}[]`, out)
      out.add(`${path}~${i === 0 ? '^' : sig(v[i - 1])}>${sig(v[i])}`)
    }
    if (v.length > 0) out.add(`${path}~${sig(v.at(-1))}>$`)
  }
  else if (v !== null && typeof v === 'object') {
    const own = sig(v)
    if (own) out.add(`${path}{${own}}`)
    for (const k of Object.keys(v)) features(v[k], `${path}.${k}`, out)
  }
  else if (typeof v !== 'number' || v <= 12) out.add(`${path}=${v}`)
}

export const sample = (behaviours, limit) => {
  if (behaviours.length <= limit) return behaviours
  const spread = (xs, n) => { const k = xs.length / n; return Array.from({ length: n }, (_, i) => xs[Math.floor(i * k)]) }
  // what is looked at closely is bounded too
  const pool = behaviours.length > 60_000 ? spread(behaviours, 60_000) : behaviours
  const picked = new Set(spread(pool, Math.ceil(limit / 2)))
  const counts = new Map()
  const ids = new Map()
  const rest = pool.map((b) => {
    const fs = new Set()
    features(JSON.parse(b), '', fs)
    return Int32Array.from(fs, (f) => {
      if (!ids.has(f)) ids.set(f, ids.size)
      const id = ids.get(f)
      counts.set(id, (counts.get(id) ?? 0) + 1)
      return id
    })
  })
  // how a behaviour ends is told by its top-level scalars; each of their values gets a larger share
  const major = new Set([...ids].filter(([f]) => /^\.\w+=/.test(f)).map(([, id]) => id))
  const weights = rest.map(fs => fs.reduce((a, f) => a + (major.has(f) ? ids.size / major.size / 2 : 1) / counts.get(f), 0))
  // systematic sampling in proportion to the weights
  const want = limit - picked.size
  const total = weights.reduce((a, w, i) => a + (picked.has(pool[i]) ? 0 : w), 0)
  let acc = 0; let next = total / want / 2
  for (let i = 0; i < pool.length; i++) {
    if (picked.has(pool[i])) continue
    acc += weights[i]
    if (acc >= next) {
      picked.add(pool[i])
      while (acc >= next) next += total / want
    }
  }
  // what heavy ones took is given to the others
  for (let i = 0; picked.size < limit && i < pool.length; i++) if (!picked.has(pool[i])) { const j = Math.floor(i * 7919 % pool.length); picked.add(pool[j]) }
  return pool.filter(b => picked.has(b))
}
