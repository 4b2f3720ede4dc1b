// Every endpoint of the library behind one interface:
//   call(options) -> promise of the outcome; streaming endpoints are read to the end, all outputs must agree.
import * as embed from 'repo:packages/embed'
import * as gi from 'repo:packages/generate-image'
import * as go from 'repo:packages/generate-object'
import * as gsp from 'repo:packages/generate-speech'
import * as gt from 'repo:packages/generate-text'
import * as gtr from 'repo:packages/generate-transcription'
import * as model from 'repo:packages/model'
import * as so from 'repo:packages/stream-object'
import * as ssp from 'repo:packages/stream-speech'
import * as stx from 'repo:packages/stream-text'
import * as str from 'repo:packages/stream-transcription'
import * as rsp from 'repo:packages-ext/responses'
import * as tel from 'repo:packages-ext/telemetry'
import './polyfill.mjs'

const usage = { completion_tokens: 1, prompt_tokens: 2, total_tokens: 3 }
const sse = (...ms) => ms.map(m => `data: ${JSON.stringify(m)}\n\n`).join('') + 'data: [DONE]\n\n'
export const jsonSchema = { properties: { a: { type: 'string' } }, required: ['a'], type: 'object' }
/** a standard schema that also knows its JSON schema */
export const schemaOf = (json, validate = value => ({ value })) => ({ '~standard': { jsonSchema: { input: () => json, output: () => json }, validate, vendor: 'harness', version: 1 } })

// reads everything a streaming result offers; fails when any part fails, and insists on one outcome
const drain = async (res) => {
  const parts = []
  for (const [k, v] of Object.entries(res)) {
    if (v instanceof ReadableStream) parts.push([k, (async () => { const out = []; for await (const x of v) out.push(x); return out })()])
    else if (v instanceof Promise) parts.push([k, v])
  }
  const settled = await Promise.allSettled(parts.map(x => x[1]))
  const bad = settled.filter(s => s.status === 'rejected')
  if (bad.length > 0) {
    if (bad.length !== settled.length) { const e = new Error(`outputs disagree: ${parts.map(([k], i) => `${k} ${settled[i].status}`).join(', ')}`, { cause: bad[0].reason }); e.disagree = true; throw e }
    throw bad[0].reason
  }
  return Object.fromEntries(parts.map(([k], i) => [k, settled[i].value]))
}

const chatAnswer = text => ({ choices: [{ finish_reason: 'stop', index: 0, message: { content: text, role: 'assistant' } }], usage })
const chatStream = text => sse({ choices: [{ delta: { content: text.slice(0, 3) }, index: 0 }] }, { choices: [{ delta: { content: text.slice(3) }, finish_reason: 'stop', index: 0 }], usage })
const OBJ = '{"a":"x"}'; const ARR = '{"elements":[{"a":"x"},{"a":"y"}]}'

// kind: chat | json | stream | bytes; form: multipart request; get: no body
export const ENDPOINTS = {
  embed: { kind: 'json', path: 'embeddings', required: { input: 'one' }, call: o => embed.embed(o), answer: { data: [{ embedding: [1, 2.5], index: 0 }], usage }, value: v => v.embedding[1] === 2.5 },
  embedMany: { kind: 'json', path: 'embeddings', required: { input: ['one', 'two'] }, call: o => embed.embedMany(o), answer: { data: [{ embedding: [1], index: 0 }, { embedding: [2], index: 1 }], usage }, value: v => v.embeddings.length === 2 },
  generateImage: { kind: 'json', path: 'images/generations', required: { prompt: 'p' }, call: o => gi.generateImage(o), answer: { data: [{ b64_json: 'iVBORw0KGgoA' }] }, value: v => v.images.length === 1 },
  generateObject: { kind: 'chat', path: 'chat/completions', required: { messages: [], schema: schemaOf(jsonSchema) }, call: o => go.generateObject(o), answer: chatAnswer(OBJ), value: v => v.object.a === 'x' },
  generateObjectArray: { kind: 'chat', path: 'chat/completions', required: { messages: [], output: 'array', schema: schemaOf(jsonSchema) }, call: o => go.generateObject(o), answer: chatAnswer(ARR), value: v => v.object.length === 2 },
  generateSpeech: { kind: 'bytes', path: 'audio/speech', required: { input: 'say', voice: 'v' }, call: o => gsp.generateSpeech(o), raw: 'sound', value: v => v.byteLength === 5 },
  generateText: { kind: 'chat', path: 'chat/completions', required: { messages: [] }, call: o => gt.generateText(o), answer: chatAnswer('hello'), value: v => v.text === 'hello' },
  generateTranscription: { kind: 'json', form: true, path: 'audio/transcriptions', required: { file: new Blob(['abc']) }, call: o => gtr.generateTranscription(o), answer: { text: 'hi' }, value: v => v.text === 'hi' },
  listModels: { get: true, kind: 'json', path: 'models', required: {}, noModel: true, call: o => model.listModels(o), answer: { data: [{ id: 'a' }], object: 'list' }, value: v => v[0].id === 'a' },
  responses: { kind: 'stream', path: 'responses', required: { input: 'q' }, call: async o => drain(rsp.responses(o)), raw: sse({ response: {}, type: 'response.created' }, { delta: 'hi', type: 'response.output_text.delta' }, { response: { output: [], status: 'completed', usage: { input_tokens: 1, output_tokens: 1, total_tokens: 2 } }, type: 'response.completed' }), value: v => v.textStream.join('') === 'hi' },
  retrieveModel: { get: true, kind: 'json', path: 'models/m', required: {}, call: o => model.retrieveModel(o), answer: { id: 'm' }, value: v => v.id === 'm' },
  streamObject: { kind: 'stream', path: 'chat/completions', required: { messages: [], schema: schemaOf(jsonSchema) }, call: async o => drain(await so.streamObject(o)), raw: chatStream(OBJ), value: v => v.partialObjectStream.at(-1).a === 'x' },
  streamObjectArray: { kind: 'stream', path: 'chat/completions', required: { messages: [], output: 'array', schema: schemaOf(jsonSchema) }, call: async o => drain(await so.streamObject(o)), raw: chatStream(ARR), value: v => v.elementStream.length === 2 },
  streamSpeech: { kind: 'stream', path: 'audio/speech', required: { input: 'say', voice: 'v' }, call: async o => drain(await ssp.streamSpeech(o)), raw: sse({ audio: 'AAEC', type: 'speech.audio.delta' }, { type: 'speech.audio.done', usage: { input_tokens: 1, output_tokens: 1, total_tokens: 2 } }), value: v => v.fullStream.length === 1 },
  streamText: { kind: 'stream', path: 'chat/completions', required: { messages: [] }, call: async o => drain(stx.streamText(o)), raw: chatStream('hello'), value: v => v.textStream.join('') === 'hello' },
  streamTranscription: { form: true, kind: 'stream', path: 'audio/transcriptions', required: { file: new Blob(['abc']) }, call: async o => drain(str.streamTranscription(o)), raw: sse({ delta: 'hi', type: 'transcript.text.delta' }), value: v => v.text === 'hi' },
  telEmbed: { base: 'embed', call: o => tel.embed(o) },
  telEmbedMany: { base: 'embedMany', call: o => tel.embedMany(o) },
  telGenerateText: { base: 'generateText', call: o => tel.generateText(o) },
  telStreamText: { base: 'streamText', call: async o => drain(tel.streamText(o)) },
}
for (const [k, e] of Object.entries(ENDPOINTS)) {
  if (e.base) { ENDPOINTS[k] = { ...ENDPOINTS[e.base], ...e, required: { ...ENDPOINTS[e.base].required, telemetry: { attributes: { secret: 'telemetry' } } } } }
  ENDPOINTS[k].name = k
}
export const goodBody = e => e.raw ?? JSON.stringify(e.answer)
