export const imagesJob = (name, consts, more) => ({
  name,
  spec: 'Images',
  consts: { Kinds: { set: ['inline', 'link'] }, Asks: { set: ['ok'] }, Heads: { set: ['ok'] }, Bodies: { set: ['ok'] }, Aborts: { set: [] }, MaxImages: 3, Sim: false, ...consts },
  invariants: ['AllOrNothing', 'NoSilentLoss', 'Settled', 'FirstFailureWins'],
  properties: ['SettlesOnce'],
  driver: 'images',
  ...more,
})
export default {
  id: 'C26',
  rule: 'every mix of inline and linked images within the bounds, every order in which the downloads answer and finish, every failure of the request, of a download and of its body, and an abort at every point; with randomized formats (AVIF, GIF, JPEG, PNG, WebP), contents and options; after each operation the state of the call, the requests and the images are compared with the model',
  exhaustive: true,
  jobs: ({ tier, S }) => {
    const big = tier === 'thorough'
    return [
      imagesJob('order', { Kinds: S('inline', 'link', 'both'), MaxImages: 4 }, { expectCounters: { done: 50, linked: 50 }, limit: big ? 20000 : 2500, renders: 2 }),
      imagesJob('ask', { Asks: S('ok', 'net', 'http', 'empty', 'badjson'), Aborts: S('wait'), MaxImages: 1 }, { expectCounters: { abort: 1, badjson: 1, done: 1, empty: 1, http: 1, net: 1 }, renders: 20 }),
      imagesJob('faults', { Kinds: S('inline', 'link', 'neither'), Heads: S('ok', 'net', 'http', 'empty'), Bodies: S('ok', 'cut'), Aborts: S('load'), MaxImages: 2 }, { expectCounters: { abort: 10, cut: 10, done: 10, http: 10, neither: 5, net: 10 }, limit: big ? 20000 : 2500, renders: 3 }),
      imagesJob('many', { MaxImages: 14, Sim: true }, { simulate: { depth: 50, num: big ? 6000 : 400 }, workers: 1, properties: [], expectCounters: { done: 100, linked: 100 } }),
      imagesJob('many-faults', { Heads: S('ok', 'http'), Bodies: S('ok', 'cut'), Aborts: S('load'), MaxImages: 6, Sim: true }, { simulate: { depth: 24, num: big ? 6000 : 400 }, workers: 1, properties: [], expectCounters: { linked: 100 } }),
    ]
  },
}
