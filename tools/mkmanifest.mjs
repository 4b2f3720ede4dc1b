// writes MANIFEST.json from properties.jsonl and checks/*.mjs
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'

const ROOT = path.dirname(path.dirname(fileURLToPath(import.meta.url)))
const props = fs.readFileSync(path.join(ROOT, 'properties.jsonl'), 'utf8').split('\n').filter(Boolean).map(l => JSON.parse(l))
const checks = []; const na = []
for (const p of props) {
  const f = path.join(ROOT, 'checks', `${p.id}.mjs`)
  if (!fs.existsSync(f)) { na.push({ property: p.id, reason: 'no check registered yet: its specification is still being written' }); continue }
  const def = (await import(f)).default
  checks.push({
    property: p.id,
    quick_cmd: `node bin/check.mjs ${p.id} --tier quick`,
    thorough_cmd: `node bin/check.mjs ${p.id} --tier thorough`,
    evidence_file: `evidence/${p.id}.json`,
    technique: def.technique ?? 'TLA+ specification model checked with TLC; every behaviour replayed into the real code',
    level: def.level ?? 'model_checking',
    level_note: def.note ?? `Exhaustive within the stated constants: TLC enumerates the behaviours of ${[...new Set(def.jobs({ tier: 'quick', S: (...xs) => ({ set: xs }) }).map(j => j.spec).filter(Boolean))].join(', ')}, and each is replayed, lock-step, into the code bundled from /repo. Trusts TLC, the renderer of abstract tokens to concrete data, and the Node.js runtime; says nothing beyond the constants.`,
  })
}
fs.writeFileSync(path.join(ROOT, 'MANIFEST.json'), `${JSON.stringify({
  version: 1,
  setup_cmd: 'node bin/setup.mjs',
  checks,
  not_applicable: na,
  notes: 'TLA+/TLC specifications in specs/, bound to the code by behaviour replay and trace validation (harness/). No hooks in /repo.',
}, null, 1)}\n`)
console.log(`${checks.length} checks, ${na.length} not claimed`)
