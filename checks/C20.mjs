const set = (...xs) => ({ set: xs })
const node = (k, p, via, ap = 'none', to = 0) => ({ ap, k, p, to, via })
const ref = (p, via, to) => node('ref', p, via, 'none', to)
const root = node('obj', 0, 'root')
const TREES = [
  [root],
  [root, node('leaf', 1, 'prop'), node('obj', 1, 'prop'), node('leaf', 3, 'prop')],
  [root, node('obj', 1, 'prop', 'true'), node('obj', 2, 'prop'), node('list', 1, 'prop'), node('obj', 4, 'item')],
  [node('list', 0, 'root'), node('obj', 1, 'item')],
  [node('any', 0, 'root'), node('obj', 1, 'alt'), node('leaf', 1, 'alt')],
  [node('obj', 0, 'root', 'schema'), node('maybe', 1, 'prop'), node('obj', 2, 'prop'), node('obj', 1, 'def')],
  [node('leaf', 0, 'root')],
  // recursive schemas, shared ones and definitions
  [root, node('list', 1, 'prop'), ref(2, 'item', 1), node('leaf', 1, 'prop')],
  [root, node('obj', 1, 'prop'), ref(1, 'prop', 2), node('leaf', 2, 'prop'), ref(2, 'prop', 4)],
  [root, node('obj', 1, 'def'), ref(1, 'prop', 2), node('any', 1, 'prop'), ref(4, 'alt', 1), ref(4, 'alt', 2), node('obj', 4, 'alt'), ref(7, 'prop', 7)],
  [node('list', 0, 'root'), node('any', 1, 'item'), ref(2, 'alt', 1), node('leaf', 2, 'alt')],
]
const ANSWERS = ['null', 'empty', 'refusal', 'notjson', 'cutjson', 'value', 'nolist', 'listnull', 'notlist', 'elements']
export const structuredJob = (name, consts, more) => ({
  name,
  spec: 'Structured',
  consts: { Fns: set('gen'), Outputs: set('absent', 'object', 'array'), Stricts: set('absent'), Opts: set('none'), Trees: set(TREES[1]), Answers: set(...ANSWERS), Verdicts: set('ok', 'bad', 'throw'), MaxElements: 3, PreSteps: set(0), Sim: false, ...consts },
  invariants: ['OnlyValid', 'Never', 'Closing', 'RefsKept'],
  driver: 'structured',
  ...more,
})
export default {
  id: 'C20',
  rule: 'every configuration (function, output, strictness, name, description, schema with or without references inside) and every answer, with the verdict of the schema on every element and the order in which the validations finish',
  exhaustive: true,
  jobs: ({ tier }) => {
    const big = tier === 'thorough'
    return [
      structuredJob('requests', { Answers: set('elements', 'value'), Fns: set('gen', 'stream'), MaxElements: 1, Opts: set('none', 'name', 'desc', 'both'), PreSteps: set(0, 1), Stricts: set('absent', 'true', 'false'), Trees: set(...TREES), Verdicts: set('ok') }, { limit: big ? undefined : 1500, renders: big ? 5 : 1, expectCounters: { streamed: 50 } }),
      structuredJob('answers', { PreSteps: set(0, 2), MaxElements: 1 }, { renders: big ? 200 : 20, expectCounters: { 'gen:failed': 100, 'gen:object': 50 } }),
      structuredJob('elements', { Answers: set('elements'), Outputs: set('array'), MaxElements: big ? 4 : 3 }, { limit: big ? 20000 : 3000, renders: 2 }),
    ]
  },
}
