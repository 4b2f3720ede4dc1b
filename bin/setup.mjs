#!/usr/bin/env node
// Nothing has to be installed: verifies that the tools the checks use are there.
import { execFileSync } from 'node:child_process'
import fs from 'node:fs'

for (const f of ['/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/node/node_modules/esbuild/package.json'])
  if (!fs.existsSync(f)) { console.error(`missing ${f}`); process.exit(1) }
execFileSync('java', ['-version'], { stdio: 'ignore' })
console.log(`setup ok (node ${process.version})`)
