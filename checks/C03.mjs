const names = 'the life of one call as an explicit state machine (ToolCall): every combination of name, arguments, validator, outcome and abort point'
export const toolJob = (name, consts, more) => ({
  name,
  spec: 'ToolCall',
  consts: { Names: { set: ['known'] }, Args: { set: ['object'] }, Vals: { set: ['absent'] }, Outs: { set: ['string'] }, Pres: { set: ['absent'] }, Posts: { set: ['absent'] }, AbortAt: { set: [] }, ...consts },
  invariants: ['OneResult', 'AtMostOnce', 'NoExecAfterFailure', 'RejectOnlyMalformed', 'NoExecWhenAborted', 'PreOnce', 'PostIffExecuted', 'PreFirst'],
  properties: ['Terminates'],
  driver: 'toolcall',
  variants: ['gen', 'stream', 'resp', 'tgen'].map(flavour => ({ flavour })),
  ...more,
})
const facets = ['exec', 'validate', 'result', 'error', 'calls']
export default {
  id: 'C03',
  rule: `${names}; each is embedded in a response with up to two other calls and run through the four loops`,
  exhaustive: true,
  jobs: ({ tier, S }) => {
    const big = tier === 'thorough'
    return [
      toolJob('outcomes', { Outs: S('string', 'empty', 'object', 'array', 'parts', 'foreign', 'mixed', 'throw', 'throwtext'), Args: S('object', 'blank', 'null', 'scalar', 'array') }, { facets, renders: big ? 25 : 5 }),
      toolJob('inputs', { Names: S('known', 'unknown', 'missing'), Args: S('object', 'array', 'scalar', 'null', 'blank', 'bad', 'missing'), Vals: S('absent', 'accept', 'transform', 'reject', 'throw'), Outs: S('object', 'throw') }, { facets, renders: big ? 12 : 2 }),
      toolJob('aborts', { Names: S('known', 'unknown'), Args: S('object', 'bad', 'blank'), Vals: S('absent', 'accept', 'reject', 'throw'), Outs: S('string', 'throw', 'throwtext'), AbortAt: S('start', 'validate', 'exec') }, { facets, renders: big ? 12 : 3 }),
      toolJob('hooked', { Names: S('known', 'unknown'), Args: S('object', 'bad'), Vals: S('absent', 'transform', 'reject'), Outs: S('string', 'throw'), Pres: S('none', 'both', 'args', 'badargs', 'unknown', 'throw', 'answer'), Posts: S('none', 'replace') }, { facets, renders: big ? 8 : 1 }),
    ]
  },
}
