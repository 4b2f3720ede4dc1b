const LIBS = ['arktype', 'effect', 'sury', 'valibot', 'zod3', 'zod4', 'zodmini']
const job = (name, consts, more) => ({
  name,
  spec: 'Vendors',
  consts: { Kinds: { set: ['str', 'num', 'bool', 'enum', 'either', 'list', 'obj', 'maybe'] }, Presence: { set: ['req', 'opt', 'default'] }, MaxNodes: 3, MaxProps: 2, MaxDevs: 1, Sim: false, ...consts },
  invariants: ['Canonical', 'Masked', 'Fills'],
  driver: 'vendors',
  variants: LIBS.map(lib => ({ lib })),
  ...more,
})
export default {
  id: 'C30',
  rule: 'every type within the bounds (texts, numbers, booleans, enumerations, alternatives, conversions, lists, objects with required, optional and defaulted properties, nullable values), written in arktype, effect, sury, valibot, zod 3, zod 4 and zod mini, and every value that deviates from it in up to the given number of places; the JSON Schema is evaluated on the value and compared with the model, and so is validation',
  exhaustive: true,
  assumptions: ['the schema libraries themselves are trusted as far as the types of the model go'],
  jobs: ({ tier, S }) => {
    const big = tier === 'thorough'
    return [
      job('small', { Kinds: S('str', 'num', 'bool', 'enum', 'either', 'conv', 'list', 'obj', 'maybe') }, { limit: big ? 20000 : 1000, expectCounters: { 'effect:rejected': 20, 'valibot:accepted': 20, 'zod3:accepted': 20, 'zod4:rejected': 20, 'zodmini:accepted': 20 } }),
      job('nested', { MaxNodes: 10, MaxProps: 4, MaxDevs: 2, Sim: true }, { simulate: { depth: 16, num: big ? 20000 : 1500 }, workers: 1, expectCounters: { 'arktype:accepted': 20, 'sury:rejected': 20 } }),
    ]
  },
}
