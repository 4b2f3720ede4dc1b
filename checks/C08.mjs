import { chatJob, S as T } from '../lib/chatjobs.mjs'

export const stepJob = (name, consts, more) => ({
  name,
  spec: 'StreamStep',
  consts: { MaxChunks: 3, Contents: { set: ['none'] }, Reasonings: { set: ['none'] }, Indices: { set: [] }, Pieces: { set: [] }, MaxFrags: 0, Finishes: { set: ['none'] }, Usages: { set: ['none'] }, Choices: { set: ['one'] }, Sim: false, ...consts },
  invariants: ['TextLossless', 'ReasonLossless', 'CallsLossless', 'Grammar'],
  driver: 'streamstep',
  variants: [{ flavour: 'stream' }, { flavour: 'tstream' }],
  ...more,
})
export const stepJobs = ({ big, S, facets }) => [
  stepJob('texts', { MaxChunks: big ? 4 : 3, Contents: S('none', 'text', 'empty', 'null', 'refusal'), Reasonings: S('none', 'text', 'empty', 'null') }, { facets, limit: big ? 12000 : 900 }),
  stepJob('ends', { MaxChunks: 3, Contents: S('none', 'text'), Finishes: S('none', 'a', 'b'), Usages: S('none', 'a', 'b'), Choices: S('one', 'empty', 'missing') }, { facets, limit: big ? 12000 : 900 }),
  stepJob('fragments', { MaxChunks: 4, Contents: S('none'), Indices: S(0, 2, 10), Pieces: S('piece', 'absent'), MaxFrags: 1 }, { facets, limit: big ? undefined : 900 }),
  stepJob('pieces', { MaxChunks: big ? 3 : 2, Contents: S('none', 'empty', 'text', 'refusal'), Indices: S(0, 2), Pieces: S('piece', 'empty', 'absent'), MaxFrags: 2 }, { facets, limit: big ? 20000 : 900 }),
  stepJob('pairs', { MaxChunks: 3, Contents: S('none', 'text'), Indices: S(0, 1), Pieces: S('piece', 'absent'), MaxFrags: 2 }, { facets, limit: big ? undefined : 900 }),
  stepJob('crowd', { MaxChunks: 3, Contents: S('none'), Indices: S(0, 1, 2, 3, 4, 5, 17), Pieces: S('piece'), MaxFrags: 6, Sim: true }, { facets, simulate: { num: big ? 2000 : 100, depth: 8 }, workers: 1 }),
  stepJob('mixed', { MaxChunks: 9, Contents: S('none', 'text', 'empty', 'null', 'refusal'), Reasonings: S('none', 'text', 'empty', 'null'), Indices: S(0, 1, 2, 11), Pieces: S('piece', 'empty', 'absent'), MaxFrags: 2, Finishes: S('none', 'a', 'b'), Usages: S('none', 'a', 'b'), Choices: S('one', 'empty', 'missing'), Sim: true }, { facets, simulate: { num: big ? 10000 : 800, depth: 15 }, workers: 1 }),
]
const facets = ['full', 'text', 'reason', 'step', 'messages', 'result']
export default {
  id: 'C08',
  rule: 'every chunk sequence within the bounds (kinds of content, reasoning, fragments over sparse indices with and without argument pieces, several per chunk, finish reasons), and random sequences of nine chunks over the full alphabet; after every chunk the streams are compared with the model',
  jobs: ({ tier, S }) => {
    const big = tier === 'thorough'
    return [
      ...stepJobs({ S, big, facets }),
      chatJob('steps', { Api: 'stream', MaxSteps: big ? 3 : 2, CallCounts: T(0, 1, 2), Texts: T('text', 'none'), Reasons: T('yes', 'no'), Mids: true, StopAns: T('no') }, { facets, variants: [{ flavour: 'stream' }], limit: big ? 20000 : 900 }),
    ]
  },
}
