const job = (name, consts, more) => ({
  name,
  spec: 'Messages',
  consts: { Helpers: { set: ['system', 'user', 'assistant', 'tool'] }, Parts: { set: ['text', 'image', 'refusal', 'call', 'stump'] }, MaxParts: 3, MaxMessages: 1, Sim: false, ...consts },
  invariants: ['Roles', 'Only'],
  driver: 'messages',
  variants: [{ api: 'gen' }, { api: 'stream' }],
  ...more,
})
export default {
  id: 'C31',
  rule: 'every helper with every content within the bounds (text, lists of parts, one tool call, lists of tool calls, mixed lists) and random conversations of them; every message and the request that carries them are compared with the model',
  exhaustive: true,
  jobs: ({ tier, S }) => {
    const big = tier === 'thorough'
    return [
      job('each', { MaxParts: big ? 4 : 3 }, { expectCounters: { assistant: 50, calls: 4, tool: 2, user: 5 }, renders: big ? 20 : 5 }),
      job('pairs', { MaxMessages: 2, MaxParts: 2 }, { expectCounters: { calls: 20 }, limit: big ? 20000 : 1500 }),
      job('long', { MaxMessages: 7, Sim: true }, { simulate: { depth: 10, num: big ? 5000 : 300 }, workers: 1 }),
    ]
  },
}
