// Replays Vendors: builds each type in every supported schema library, converts it with toJsonSchema, evaluates the JSON
// Schema and the library's own validation on each value, and compares both with the model.
import { type } from 'dep:packages-top/xsschema:arktype'
import { Schema } from 'dep:packages-top/xsschema:effect'
import * as S from 'dep:packages-top/xsschema:sury'
import * as v from 'dep:packages-top/xsschema:valibot'
import { z as z3 } from 'dep:packages-top/xsschema:zod/v3'
import { z as z4 } from 'dep:packages-top/xsschema:zod/v4'
import { z as zm } from 'dep:packages-top/xsschema:zod/v4-mini'
import { strictJsonSchema, toJsonSchema, validate } from 'repo:packages-top/xsschema'
import { tool } from 'repo:packages/tool'
import { eq, show, text } from '../core.mjs'

// ------------------------------------------------------------------ a small evaluator of JSON Schema draft-07
const ANNOTATIONS = new Set(['$defs', '$id', '$schema', 'default', 'definitions', 'description', 'examples', 'format', 'pattern', 'title'])
const TYPES = { array: Array.isArray, boolean: x => typeof x === 'boolean', integer: Number.isInteger, null: x => x === null, number: x => typeof x === 'number', object: x => typeof x === 'object' && x !== null && !Array.isArray(x), string: x => typeof x === 'string' }
const evaluate = (root, s, x) => {
  if (typeof s === 'boolean') return s
  if (s.$ref !== undefined) { const path = s.$ref.replace(/^#\/?/, '').split('/').filter(Boolean); return evaluate(root, path.reduce((o, k) => o[k.replaceAll('~1', '/').replaceAll('~0', '~')], root), x) }
  return Object.entries(s).every(([k, a]) => {
    switch (k) {
      case 'additionalProperties': return !TYPES.object(x) || Object.keys(x).filter(n => !Object.hasOwn(s.properties ?? {}, n)).every(n => evaluate(root, a, x[n]))
      case 'allOf': return a.every(t => evaluate(root, t, x))
      case 'anyOf': return a.some(t => evaluate(root, t, x))
      case 'const': return eq(a, x)
      case 'enum': return a.some(t => eq(t, x))
      case 'items': if (Array.isArray(a)) throw new Error('tuple'); return !Array.isArray(x) || x.every(t => evaluate(root, a, t))
      case 'not': return !evaluate(root, a, x)
      case 'oneOf': return a.filter(t => evaluate(root, t, x)).length === 1
      case 'properties': return !TYPES.object(x) || Object.entries(a).every(([n, t]) => !Object.hasOwn(x, n) || evaluate(root, t, x[n]))
      case 'required': return !TYPES.object(x) || a.every(n => Object.hasOwn(x, n))
      case 'type': return [a].flat().some(t => TYPES[t](x))
      default: if (ANNOTATIONS.has(k)) return true; throw new Error(`keyword ${k} is not one of draft-07 that these schemas need`)
    }
  })
}

// ------------------------------------------------------------------ the libraries
const E = ['red', 'blue']
const LIBS = {
  arktype: { bool: () => type('boolean'), either: () => type('boolean | number'), enum: () => type.enumerated(...E), list: t => t.array(), maybe: t => t.or('null'), num: () => type('number'), str: () => type('string'),
    obj: ps => type(Object.fromEntries(ps.map(([n, t, q, d]) => (q === 'opt' ? [`${n}?`, t] : q === 'default' ? [n, t.default(d)] : [n, t])))) },
  effect: { bool: () => Schema.Boolean, conv: () => Schema.NumberFromString, either: () => Schema.Union(Schema.Boolean, Schema.Number), enum: () => Schema.Literal(...E), list: t => Schema.Array(t), maybe: t => Schema.NullOr(t), num: () => Schema.Number, str: () => Schema.String, finish: t => Schema.standardSchemaV1(t),
    obj: ps => Schema.Struct(Object.fromEntries(ps.map(([n, t, q, d]) => [n, q === 'opt' ? Schema.optional(t) : q === 'default' ? Schema.optionalWith(t, { default: () => d }) : t]))) },
  sury: { bool: () => S.boolean, either: () => S.union([S.boolean, S.number]), enum: () => S.union(E), list: t => S.array(t), maybe: t => S.nullable(t), num: () => S.number, str: () => S.string,
    obj: ps => S.schema(Object.fromEntries(ps.map(([n, t, q, d]) => [n, q === 'opt' ? S.optional(t) : q === 'default' ? S.optional(t, d) : t]))) },
  valibot: { bool: () => v.boolean(), either: () => v.union([v.boolean(), v.number()]), enum: () => v.picklist(E), list: t => v.array(t), maybe: t => v.nullable(t), num: () => v.number(), str: () => v.string(),
    obj: ps => v.object(Object.fromEntries(ps.map(([n, t, q, d]) => [n, q === 'opt' ? v.optional(t) : q === 'default' ? v.optional(t, d) : t]))) },
  zod3: zodLike(z3), zod4: zodLike(z4),
  zodmini: { bool: () => zm.boolean(), conv: () => zm.pipe(zm.string(), zm.transform(Number)), either: () => zm.union([zm.boolean(), zm.number()]), enum: () => zm.enum(E), list: t => zm.array(t), maybe: t => zm.nullable(t), num: () => zm.number(), str: () => zm.string(),
    obj: ps => zm.object(Object.fromEntries(ps.map(([n, t, q, d]) => [n, q === 'opt' ? zm.optional(t) : q === 'default' ? zm._default(t, d) : t]))) },
}
function zodLike(z) {
  return { bool: () => z.boolean(), conv: () => z.string().transform(Number), either: () => z.union([z.boolean(), z.number()]), enum: () => z.enum(E), list: t => z.array(t), maybe: t => t.nullable(), num: () => z.number(), str: () => z.string(),
    obj: ps => z.object(Object.fromEntries(ps.map(([n, t, q, d]) => [n, q === 'opt' ? t.optional() : q === 'default' ? t.default(d) : t]))) }
}
const NAMES = ['name', 'a b', 'é', 'x_y', 'type', 'items', 'n1', 'n2', 'n3']

export const run = async (b, ctx) => {
  const r = ctx.rng; const lib = ctx.variant.lib; const L = LIBS[lib]
  const nodes = b.nodes.map((n, i) => ({ ...n, children: b.nodes.flatMap((m, j) => (m.p === i + 1 ? [j] : [])), dev: b.devs.find(d => d.i === i + 1)?.w }))
  // sury knows no defaults of alternatives
  if ((nodes.some(n => n.k === 'conv') && !L.conv) || (lib === 'sury' && nodes.some(n => n.q === 'default' && ['either', 'enum'].includes(n.k)))) { ctx.count('unsupported'); return }
  nodes.forEach((n) => { const names = r.shuffle(NAMES); n.children.forEach((c, i) => { nodes[c].name = names[i] }) })
  // ---------------------------------------------------------------- values
  const NONE = Symbol('missing')
  const DEFAULT = { bool: true, conv: '7', either: 3, enum: 'blue', num: 1.5, str: 'dflt' }
  const wrong = (k, n) => {
    const pool = { bool: ['x', 3, {}, []], conv: [true, 4, {}, []], either: ['x', {}, []], enum: ['green', 'Red', '', 1, {}], list: ['x', {}, 3], maybe: [], num: ['3', true, {}, []], obj: ['x', 3, true], str: [3, false, {}, []] }
    return r.pick(k === 'maybe' ? pool[nodes[n.children[0]].k] : pool[k])
  }
  const clean = (i) => { const n = nodes[i]; switch (n.k) { case 'bool': return r.bool(); case 'conv': return String(r.int(99)); case 'either': return r.bool(); case 'enum': return E[0]; case 'list': return Array.from({ length: 1 + r.int(2) }, () => build(n.children[0])); case 'maybe': return build(n.children[0]); case 'num': return r.pick([0, -1, 1.5, 7]); case 'str': return text(r, 't'); default: return Object.fromEntries(n.children.map(c => [nodes[c].name, build(c)]).filter(([, x]) => x !== NONE)) } }
  const build = (i) => { const n = nodes[i]; switch (n.dev) { case 'wrong': return wrong(n.k, n); case 'null': return null; case 'missing': return NONE; case 'empty': return []; case 'other': return n.k === 'enum' ? E[1] : r.int(9); default: return clean(i) } }
  // what validation gives back for an accepted value
  const output = (i, x) => {
    const n = nodes[i]
    if (x === null) return null
    switch (n.k) {
      case 'conv': return Number(x)
      case 'list': return x.map(y => output(n.children[0], y))
      case 'maybe': return output(n.children[0], x)
      case 'obj': return Object.fromEntries(n.children.flatMap((c) => { const m = nodes[c]; if (Object.hasOwn(x, m.name)) return [[m.name, output(c, x[m.name])]]; return m.q === 'default' ? [[m.name, m.k === 'conv' && lib.startsWith('zod') && lib !== 'zod3' ? DEF(m) : output(c, DEF(m))]] : [] }))
      default: return x
    }
  }
  // the default of a converted property is written in terms of its input or of its output, as the library has it
  const DEF = m => (m.k === 'conv' && lib !== 'zod3' ? 7 : DEFAULT[m.k])
  const make = (i) => { const n = nodes[i]; if (n.k === 'obj') return L.obj(n.children.map(c => [nodes[c].name, make(c), nodes[c].q, nodes[c].q === 'default' ? DEF(nodes[c]) : undefined])); return Inner(n.k) ? L[n.k](make(n.children[0])) : L[n.k]() }
  const schema = (L.finish ?? (x => x))(make(0))
  const value = build(0)
  const snapshot = JSON.stringify(value)
  const describe = `${lib}: ${nodes.map(n => `${n.k}/${n.p}${n.q === 'req' ? '' : n.q}`).join(' ')} value ${snapshot}`
  // known finding: the schema of zod's mini variant is the one of its output
  const conv = e => (lib === 'zodmini' && nodes.some(n => n.k === 'conv') && /Transforms cannot be represented/.test(e.message) ? 'zod-mini-output' : undefined)
  const defaulted = lib === 'zodmini' && b.accepts && b.filled.length > 0 ? 'zod-mini-output' : undefined

  // ---------------------------------------------------------------- the schema that is sent
  let json
  try { json = await toJsonSchema(schema) }
  catch (e) { ctx.diff('schema', `${describe}: toJsonSchema failed with ${show(e)}`, undefined, conv(e)); return { lib } }
  if (json.$schema !== undefined && !/draft-07/.test(json.$schema)) ctx.diff('schema', `${describe}: the schema is of ${json.$schema}`)
  let says
  try { says = evaluate(json, json, value) }
  catch (e) { ctx.diff('schema', `${describe}: ${e.message} in ${show(json)}`); return { lib } }
  if (says !== b.accepts) ctx.diff('schema', `${describe}: the schema ${says ? 'accepts' : 'rejects'} it, expected the contrary: ${show(json)}`, undefined, defaulted)

  // ---------------------------------------------------------------- validation
  let got
  try { got = { value: await validate(schema, value) } }
  catch (e) { got = { error: e } }
  if ((got.error === undefined) !== b.accepts) ctx.diff('validate', `${describe}: validation ${got.error ? `failed with ${show(got.error)}` : 'passed'}, expected the contrary`)
  // (sury turns null into undefined)
  const norm = x => (lib !== 'sury' ? x : JSON.parse(JSON.stringify(x, (_, y) => (y === null ? undefined : Array.isArray(y) ? y.map(z => z ?? '-') : y)) ?? 'null'))
  if (!got.error && b.accepts && value !== null && !eq(norm(got.value), norm(output(0, value)))) ctx.diff('validate', `${describe}: validation gave ${show(got.value)}, expected ${show(output(0, value))}`)
  if (JSON.stringify(value) !== snapshot) ctx.diff('validate', `${describe}: the value was modified`)

  // ---------------------------------------------------------------- a tool built from it
  const execute = () => 'x'
  const strict = r.pick([undefined, true, false])
  const t = await tool({ execute, name: 'tt', parameters: schema, ...(strict === undefined ? {} : { strict }) })
  const want = strict === false ? json : strictJsonSchema(json)
  if (!eq(t.function.parameters, want)) ctx.diff('tool', `${describe}: the tool's parameters are ${show(t.function.parameters)}, expected ${show(want)}`)
  const res = await t.validate(value)
  if ((res.issues === undefined) !== b.accepts) ctx.diff('tool', `${describe}: the tool's validation ${res.issues ? 'failed' : 'passed'}`)

  // ---------------------------------------------------------------- a schema that converts itself, and one of an unknown library
  const own = { '~standard': { jsonSchema: { input: o => ({ o, own: true }), output: () => ({ own: 'output' }) }, validate: async x => (b.accepts ? { value: x } : { issues: [{ message: 'no' }] }), vendor: r.pick(['zod', 'valibot', 'mine']), version: 1 } }
  if (!eq(await toJsonSchema(own), { o: { target: 'draft-07' }, own: true })) ctx.diff('schema', `a schema that converts itself gave ${show(await toJsonSchema(own))}`)
  let own2; try { own2 = [await validate(own, value)] } catch (e) { own2 = e }
  if (b.accepts ? !(Array.isArray(own2) && own2[0] === value) : !(own2 instanceof Error && /no/.test(own2.message))) ctx.diff('validate', `asynchronous validation gave ${show(own2)}`)
  const falsy = r.pick([null, undefined, false, 0, ''])
  const out = await validate({ '~standard': { validate: () => ({ value: falsy }), vendor: 'mine', version: 1 } }, value)
  if (out !== falsy) ctx.diff('validate', `the output ${show(falsy)} came back as ${show(out)}`)
  const unknown = await toJsonSchema({ '~standard': { validate: x => ({ value: x }), vendor: 'mine', version: 1 } }).catch(e => e)
  if (!(unknown instanceof Error && /mine/.test(unknown.message))) ctx.diff('schema', `a schema of an unknown library gave ${show(unknown)}`)
  ctx.count(`${lib}:${b.accepts ? 'accepted' : 'rejected'}`)
  return { devs: b.devs, lib, nodes: b.nodes }
}
const Inner = k => k === 'list' || k === 'maybe'
