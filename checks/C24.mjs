import fs from 'node:fs'

const table = JSON.parse(fs.readFileSync(new URL('../specs/providers.json', import.meta.url), 'utf8'))
// a provider with several documented variables uses the first that is set; only the i-th is set in a run
const envs = i => table.map(t => ({ ...t, env: t.env.split(' or ').at(Math.min(i, t.env.split(' or ').length - 1)) }))
const CAPS = { anthropic: ['chat', 'model'], azure: ['chat', 'embed', 'model', 'speech', 'transcription'], embedder: ['chat', 'embed', 'model'], featherless: ['chat', 'model'], full: ['chat', 'embed', 'image', 'model', 'speech', 'transcription'], instance: ['chat', 'model'], kit: ['chat', 'embed', 'image', 'model', 'speech', 'transcription'], openrouter: ['chat', 'model'], plain: ['chat', 'model'], player2: ['chat', 'speech'], together: ['chat', 'embed', 'model'], workers: ['chat', 'embed'] }
CAPS.azuretoken = CAPS.azure
const EXTRA = [['anthropic', 'chat'], ['openrouter', 'chat'], ['kit', 'chat'], ['kit', 'embed'], ['kit', 'model'], ['kit', 'speech'], ['kit', 'transcription']]
const lit = x => JSON.stringify(x)
const job = (name, kinds, { Env, ...consts }, more) => ({
  name,
  spec: 'Providers',
  consts: {
    Kinds: { set: kinds },
    CapsOf: { tla: `[k \\in {${kinds.map(lit).join(', ')}} |-> CASE ${kinds.map(k => `k = ${lit(k)} -> {${CAPS[k].map(lit).join(', ')}}`).join(' [] ')}]` },
    ExtraCaps: { tla: `{${EXTRA.map(([k, c]) => `<<${lit(k)}, ${lit(c)}>>`).join(', ')}}` },
    MaxProvs: 1, MaxHandles: 1, MaxCalls: 1, Extras: { set: ['none', 'some'] }, MaxOps: 3, Edits: false, Sim: false, ...consts,
  },
  invariants: ['TokenFirst'],
  properties: consts.Sim ? [] : ['Values', 'Frozen'],
  driver: 'providers',
  table: envs(Env ?? 0),
  env: Object.fromEntries(envs(Env ?? 0).map(t => [t.env, `env-${t.env}`])),
  ...more,
})
const KINDS = Object.keys(CAPS)
export default {
  id: 'C24',
  rule: 'every kind of provider (a documented table of 124 for the generated ones) with every capability, one request through each handle and both answers; every interleaving of creating, taking, editing and using handles of two providers; random long histories with several requests in flight. After every operation every handle taken so far is compared with its own creation',
  exhaustive: true,
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return [
      job('kinds', KINDS, {}, { renders: big ? 300 : 60, expectCounters: { 'get:instance:chat': 50, 'get:generated:chat': 50, 'answer:player2:speech:true': 10, 'answer:featherless:model:false': 10, 'answer:azuretoken:chat:true': 10 } }),
      ...[1, 2].map(Env => job(`instances-${Env}`, ['instance'], { Env }, { renders: big ? 300 : 100 })),
      job('two', ['openrouter', 'azuretoken', 'anthropic', 'player2'], { Edits: true, MaxCalls: 2, MaxHandles: 2, MaxOps: 5, MaxProvs: 2 }, { limit: big ? 40000 : 2000 }),
      job('long', KINDS, { Edits: true, MaxCalls: 6, MaxHandles: 8, MaxOps: 20, MaxProvs: 4, Sim: true }, { simulate: { depth: 36, num: big ? 20000 : 1500 }, workers: 1 }),
    ]
  },
}
