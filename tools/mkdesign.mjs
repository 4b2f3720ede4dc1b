// rewrites the table of planted bugs at the end of DESIGN.md
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
const ROOT = path.dirname(path.dirname(fileURLToPath(import.meta.url)))
const f = path.join(ROOT, 'DESIGN.md')
const mark = '<!-- planted bugs -->'
const head = fs.readFileSync(f, 'utf8').split(mark)[0]
const rows = fs.readdirSync(path.join(ROOT, 'seeded')).sort().map((d) => {
  const m = JSON.parse(fs.readFileSync(path.join(ROOT, 'seeded', d, 'meta.json'), 'utf8'))
  return `| ${d} | ${m.property} | ${m.needs.replaceAll('|', '\\|')} | ${m.missed ? 'missed' : 'caught'} |`
})
fs.writeFileSync(f, `${head}${mark}\n\n| planted bug | property | needs | by the property's check |\n|---|---|---|---|\n${rows.join('\n')}\n`)
