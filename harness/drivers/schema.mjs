// Replays Schema: strict schemas, and tools built from schemas.
import { defineTool, rawTool, tool } from 'repo:packages/tool'
import { strictJsonSchema } from 'repo:packages-top/xsschema'
import { eq, show } from '../core.mjs'
import { schemaOf } from '../endpoints.mjs'

const freeze = (x) => { if (x && typeof x === 'object') { Object.freeze(x); Object.values(x).forEach(freeze) } return x }

/**
 * @param closed per node: closed by strictness; undefined: as given
 * @param refs per node of kind ref: the nodes on the way to what it means (0: from the wrapper to the schema)
 */
export const renderSchema = (nodes, seedPick, closed, refs) => {
  const esc = s => encodeURIComponent(s.replaceAll('~', '~0').replaceAll('/', '~1'))
  const step = (j) => {
    if (j < 0) return '/properties/elements/items'
    const n = nodes[j]; const c = seedPick(n.p - 1)
    if (n.via === 'prop') return `/properties/${esc(c.name(j))}`
    if (n.via === 'item') return '/items'
    if (n.via === 'def') return `/${esc(c.defKey)}/Def`
    return `/anyOf/${nodes.filter((x, i) => x.p === n.p && x.via === 'alt' && i < j).length}`
  }
  const place = i => (i === 1 ? [] : [...place(nodes[i - 1].p), i])
  const kids = i => nodes.map((n, j) => ({ ...n, j })).filter(n => n.p === i + 1)
  const make = (i) => {
    const n = nodes[i]
    const c = seedPick(i)
    let s = {}
    const children = kids(i)
    const of = via => children.filter(x => x.via === via)
    const extra = { ...(c.desc ? { description: `d${i}` } : {}), ...(c.title ? { title: c.title } : {}) }
    if (n.k === 'bool') return true
    if (n.k === 'leaf') s = c.leaf
    else if (n.k === 'ref') return { $ref: `#${(refs?.[i] ?? place(n.to)).map(x => step(x - 1)).join('')}` }
    else if (n.k === 'obj' || n.k === 'maybe') {
      s.type = n.k === 'obj' ? 'object' : ['object', 'null']
      const props = of('prop')
      s.properties = Object.fromEntries(props.map(x => [c.name(x.j), make(x.j)]))
      if (c.required) s.required = props.slice(0, 1).map(x => c.name(x.j))
      for (const d of of('def')) s[c.defKey] = { Def: make(d.j) }
    }
    else if (n.k === 'bare') s.type = 'object'
    else if (n.k === 'list') { s.type = 'array'; const x = of('item')[0]; s.items = x ? make(x.j) : { type: 'string' } }
    else if (n.k === 'any') s.anyOf = of('alt').map(x => make(x.j))
    s = c.descFirst ? { ...extra, ...s } : { ...s, ...extra }
    if (n.ap === 'true') s.additionalProperties = true
    else if (n.ap === 'false') s.additionalProperties = false
    else if (n.ap === 'schema') s.additionalProperties = { properties: {}, type: 'object' }
    if (closed?.[i]) s.additionalProperties = false
    return s
  }
  return make(0)
}

const NAMES = ['p', 'é', 'type', 'properties', 'a b', '1', 'additionalProperties', 'default', 'enum', '$defs', 'a/b~', '$ref', 'items', 'const', 'required']

/** the choices of a rendering, the same for the schema and its expected strict version */
export const schemaChoices = (r, n, leaves = []) => {
  const cs = Array.from({ length: n }, (_, i) => ({
    defKey: r.pick(['$defs', 'definitions', 'dependentSchemas', 'patternProperties']),
    desc: r.bool(0.3),
    descFirst: r.bool(),
    leaf: r.pick([{ type: 'string' }, { enum: ['a', 1, null] }, { minimum: 0, type: 'number' }, { const: 3 }, { type: ['string', 'null'] }, { type: 'null' }, {}, { default: { type: 'object' }, type: 'boolean' }, { const: { $ref: '#' } }, { enum: [{ $ref: '#/x' }, '#'] }, { default: { $ref: '#' }, examples: [{ $ref: '#' }] }, { $ref: 'https://x.test/s.json#/a' }, { $ref: '#anchor' }, ...leaves]),
    name: (j => k => (k < NAMES.length ? NAMES[(j + k) % NAMES.length] : `${NAMES[j]}${k}`))(r.int(NAMES.length - 1)),
    required: r.bool(),
    title: r.bool(0.2) ? `t${i}` : undefined,
  }))
  return i => cs[i]
}

// the order of properties, as the model sees it; of keywords it does not matter
const order = (a, b, names = false) => {
  if (typeof a !== 'object' || a === null || typeof b !== 'object' || b === null) return true
  if (Array.isArray(a)) return a.every((x, i) => order(x, b[i]))
  if (names && Object.keys(a).join('\0') !== Object.keys(b).join('\0')) return false
  return Object.keys(a).every(k => order(a[k], b[k], !names && k === 'properties'))
}

export const run = async (b, ctx) => {
  const r = ctx.rng
  const choices = schemaChoices(r, b.nodes.length, [{ $ref: '#/$defs/Def' }, { $ref: '#' }])
  const given = renderSchema(b.nodes, choices)
  const kept = structuredClone(given)
  const want = renderSchema(b.nodes, choices, b.closed)
  freeze(given)
  const check = (got, expected, what) => {
    const json = JSON.parse(JSON.stringify(got))
    if (!eq(json, expected)) { ctx.diff('strict', `${what} of ${show(kept)}: ${show(got)}, expected ${show(expected)}`); return }
    if (!order(expected, json)) ctx.diff('strict', `${what} of ${show(kept)} changes the order of properties: ${show(got)}`)
  }
  check(strictJsonSchema(given), want, 'strictJsonSchema')
  check(strictJsonSchema(given), want, 'strictJsonSchema, second use,')
  check(strictJsonSchema(freeze(strictJsonSchema(given))), want, 'strictJsonSchema, applied twice,')
  if (!eq(given, kept)) ctx.diff('strict', 'the argument has been modified')

  // tools
  const seen = []
  const outcome = r.pick([{ value: { out: 1 } }, { value: undefined }, { value: null }, { issues: [{ message: 'no' }] }, { issues: [{ message: 'a' }, { message: 'b' }] }, 'throw'])
  const validate = (input) => { seen.push(input); if (outcome === 'throw') throw new Error('validator'); return r.bool() ? outcome : Promise.resolve(outcome) }
  const strict = r.pick([undefined, true, false])
  const execute = () => 'x'
  const base = { execute, name: r.pick(['t', 'é', 'get_it']), ...(r.bool() ? { description: r.pick(['does', '']) } : {}), ...(strict === undefined ? {} : { strict }) }
  const std = schemaOf(given, validate)
  for (const [what, t] of [['tool', await tool({ ...base, parameters: std })], ['defineTool', defineTool({ ...base, parameters: std })], ['rawTool', rawTool({ ...base, parameters: given })]]) {
    const say = (facet, m) => ctx.diff(facet, `${what}(${show({ ...base, execute: undefined })}): ${m}`)
    check(t.function.parameters, strict === false ? kept : want, `${what} strict ${strict}: parameters`)
    if (t.execute !== execute) say('tool', 'another function')
    if (t.type !== 'function' || t.function.name !== base.name || t.function.description !== base.description || t.function.strict !== (strict ?? true)) say('tool', show(t))
    if (Object.keys(t).some(k => !['execute', 'function', 'type', 'validate'].includes(k)) || Object.keys(t.function).some(k => !['description', 'name', 'parameters', 'strict'].includes(k))) say('tool', `unexpected members: ${show(t)}`)
    if (what === 'rawTool') { if (t.validate !== undefined) say('validator', 'has a validator'); continue }
    seen.length = 0
    const input = r.pick([{ a: 1 }, null, 'x', undefined, [1]])
    let got
    try { got = await t.validate(input) }
    catch (e) { got = e.message === 'validator' ? 'throw' : e }
    if (seen.length !== 1 || seen[0] !== input) say('validator', `the schema saw ${show(seen)}, expected ${show(input)}`)
    if (outcome === 'throw' ? got !== 'throw' : (outcome.issues ? !eq(got?.issues, outcome.issues) : got?.issues !== undefined || !eq(got?.value, outcome.value))) say('validator', `answers ${show(got)}, the schema ${show(outcome)}`)
    ctx.count(`tool:${outcome === 'throw' ? 'throw' : outcome.issues ? 'issues' : 'value'}`)
  }
  if (!eq(given, kept)) ctx.diff('strict', 'building a tool modified the schema')
  return { given, want }
}
