// Written once: the table of documented providers (specs/providers.json), taken from the @remarks of the exported
// instances. It is the specification the default instances are compared with; it is not regenerated by the checks.
import fs from 'node:fs'
const out = []
for (const f of ['generated/index.ts', 'manual/index.ts']) {
  const s = fs.readFileSync(`/repo/packages-ext/providers/src/${f}`, 'utf8')
  for (const m of s.matchAll(/\/\*\*([\s\S]*?)\*\/\s*export const (\w+) = (\w+)/g)) {
    const base = /baseURL - `(.*?)`/.exec(m[1])?.[1]; const env = /apiKey - `(.*?)`/.exec(m[1])?.[1]
    out.push({ name: m[2], create: m[3], base, env })
  }
}
console.log(JSON.stringify(out, null, 0).replaceAll('},{', '},\n{'))
