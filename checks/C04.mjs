import { toolJob } from './C03.mjs'
const facets = ['hooks', 'exec', 'result', 'calls', 'error', 'validate']
export default {
  id: 'C04',
  rule: 'every answer of the pre-call hook crossed with name, arguments, validator, outcome, every answer of the post-call hook and every abort point; each is embedded in a response with up to two other calls and run through the four loops',
  exhaustive: true,
  jobs: ({ tier, S }) => {
    const big = tier === 'thorough'
    const Pres = S('none', 'same', 'args', 'name', 'both', 'unknown', 'badargs', 'answer', 'throw', 'wrongcall', 'wrongresult')
    const Posts = S('none', 'replace', 'throw', 'wrongid')
    return [
      toolJob('both', { Names: S('known', 'unknown'), Args: S('object', 'bad', 'blank'), Vals: S('absent', 'transform', 'reject'), Outs: S('string', 'throw'), Pres, Posts }, { facets, renders: big ? 6 : 1 }),
      toolJob('malformed', { Names: S('known', 'missing'), Args: S('object', 'missing'), Pres, Posts }, { facets, renders: big ? 20 : 2 }),
      toolJob('pre', { Names: S('known'), Args: S('object', 'null'), Vals: S('absent', 'throw'), Outs: S('parts', 'throwtext'), Pres }, { facets, renders: big ? 20 : 2 }),
      toolJob('post', { Names: S('known', 'unknown'), Args: S('object', 'scalar'), Vals: S('absent', 'throw', 'accept'), Outs: S('object', 'empty', 'throwtext'), Posts }, { facets, renders: big ? 20 : 2 }),
      toolJob('aborts', { Names: S('known', 'unknown'), Args: S('object'), Vals: S('absent', 'accept'), Outs: S('string', 'throw'), Pres, Posts, AbortAt: S('start', 'pre', 'validate', 'exec', 'post') }, { facets, limit: big ? undefined : 1000 }),
    ]
  },
}
