// Bundles the harness together with the TypeScript sources of /repo's *current working tree*.
// Modules are addressed by package directory ("repo:packages/generate-text"), so only package entry
// points (what a user can import) are ever used.
import { createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'

const require = createRequire('/opt/veriftools/node/node_modules/')
const esbuild = require('esbuild')

export const REPO = process.env.VERIF_REPO ?? '/repo'

const entryOf = (spec) => {
  const dir = path.join(REPO, spec)
  const pkg = JSON.parse(fs.readFileSync(path.join(dir, 'package.json'), 'utf8'))
  const e = pkg.exports?.['.']
  const rel = typeof e === 'string' ? e : e?.default ?? e?.import?.default ?? e?.import ?? pkg.main ?? './src/index.ts'
  const src = path.join(dir, 'src/index.ts')
  const file = path.join(dir, rel)
  return rel.endsWith('.ts') && fs.existsSync(file) ? file : src
}

export const bundle = async (entry, outfile) => {
  await esbuild.build({
    entryPoints: [entry],
    outfile,
    bundle: true,
    format: 'esm',
    platform: 'node',
    target: 'node22',
    logLevel: 'silent',
    sourcemap: 'inline',
    banner: { js: 'import { createRequire as __cr } from "node:module"; const require = __cr(import.meta.url);' },
    // only the driver that compares the schema libraries needs them
    external: /vendors\.mjs$/.test(entry) ? [] : ['arktype', 'effect', 'sury', '@valibot/to-json-schema'],
    plugins: [{
      name: 'repo',
      setup(b) {
        b.onResolve({ filter: /^repo:/ }, (a) => {
          const spec = a.path.slice(5)
          return { path: /\.ts$/.test(spec) ? path.join(REPO, spec) : entryOf(spec) }
        })
        // third-party modules used by the harness itself, resolved from a package of /repo
        b.onResolve({ filter: /^dep:/ }, async (a) => {
          const [, dir, mod] = /^dep:([^:]+):(.+)$/.exec(a.path)
          return b.resolve(mod, { resolveDir: path.join(REPO, dir), kind: 'import-statement' })
        })
      },
    }],
  })
}
