// Replays ChatLoop behaviours into generateText / streamText / responses (and their telemetry copies).
import * as gt from 'repo:packages/generate-text'
import * as stx from 'repo:packages/stream-text'
import * as rsp from 'repo:packages-ext/responses'
import * as tel from 'repo:packages-ext/telemetry'
import { createFetch } from 'repo:packages-top/xsfetch'
import { APICallError, InvalidResponseError, InvalidToolCallError, JSONParseError, RemoteAPIError } from 'repo:packages/shared'
import { bytesOf, collect, controlledBody, deferred, eq, jsonResponse, settle, show, splitBytes, sseEvent, streamResponse, tick, until, watchPromise } from '../core.mjs'
import { Render } from '../chatrender.mjs'
import { allSpans, attrs, exceptions, failedSpan, inSpan, installTracing, resetSpans } from '../otel.mjs'

const STREAMS = { event: 'eventStream', full: 'fullStream', reason: 'reasoningTextStream', text: 'textStream' }

export const matchResult = (actual, want) => {
  if (!eq(actual?.args, want.args) || actual?.toolCallId !== want.toolCallId || actual?.toolName !== want.toolName) return false
  if (want.isError) return actual.isError === true && typeof actual.result === 'string' && want.includes.every(x => actual.result.includes(x))
  return !actual.isError && eq(actual.result, want.result)
}

const matchToolContent = (content, want) =>
  want.isError ? typeof content === 'string' && want.includes.every(x => content.includes(x)) : eq(content, want.content)

/** compares a concrete history with the expected one */
export const diffHistory = (api, actual, want) => {
  if (!Array.isArray(actual)) return `history is ${show(actual)}`
  if (api === 'resp') {
    const outs = actual.filter(x => x?.type === 'function_call_output')
    const ids = outs.map(x => x.id)
    if (new Set(ids).size < new Set(outs.map(x => x.call_id)).size) return `the outputs of calls share ids: ${show(ids)}`
  }
  for (let i = 0; i < Math.max(actual.length, want.length); i++) {
    const a = actual[i]; const w = want[i]
    if (w === undefined) return `surplus entry ${i}: ${show(a)}`
    if (a === undefined) return `missing entry ${i}: ${show(w)}`
    if (w.$tool) {
      const ok = api === 'resp'
        ? a.type === 'function_call_output' && a.call_id === w.$tool.toolCallId && matchToolContent(a.output, w.$tool) && typeof a.id === 'string'
        : a.role === 'tool' && a.tool_call_id === w.$tool.toolCallId && matchToolContent(a.content, w.$tool)
      if (!ok) return `entry ${i} is ${show(a)}, expected the result ${show(w.$tool)}`
    }
    else if (api === 'stream' && w.role === 'assistant' && i > 0 && w.tool_calls) {
      // fragments may keep transport fields (index) on the assembled calls
      const strip = m => ({ ...m, tool_calls: m.tool_calls?.map(c => c == null ? c : ({ function: { arguments: c.function?.arguments, name: c.function?.name }, id: c.id, type: c.type })) })
      if (a?.role !== 'assistant' || !eq(strip(a), w)) return `entry ${i} is ${show(a)}, expected ${show(w)}`
    }
    else if (api === 'stream' && w.role === 'assistant') {
      const { tool_calls, ...rest } = a ?? {}
      if ((tool_calls?.length ?? 0) !== 0 || !eq(rest, w)) return `entry ${i} is ${show(a)}, expected ${show(w)}`
    }
    else if (!eq(a, w)) return `entry ${i} is ${show(a)}, expected ${show(w)}`
  }
}

export const setup = (job) => { if (job.otel) installTracing() }

export const run = async (b, ctx) => {
  if (!ctx.shared) resetSpans()
  const tag = ctx.tag ?? 'x'
  const flavour = ctx.variant?.flavour ?? b.api
  const api = b.api
  const r = ctx.rng
  const kit = ctx.kit   // tools which another run uses, too
  const R = new Render(api, r, { burst: ctx.job.burst, counted: b.h[0].ev > 0, toolNames: kit?.names, uniqueIds: Boolean(b.sp || ctx.shared) })
  const streaming = api !== 'gen'
  const opts = ctx.variant ?? {}

  // --------------------------------------------------------- windows and scripts
  const windows = []
  for (const x of b.h) {
    if (x.e) windows.push({ env: x, obs: [] })
    else windows.at(-1).obs.push(x)
  }
  const scripts = { prep: [], stop: [], step: [], finish: [] }
  for (const x of b.h) if (x.o && x.ans !== undefined && scripts[x.o]) scripts[x.o].push(x.ans)
  const has = { prep: scripts.prep.length > 0 || ctx.job.consts?.Preps?.set?.[0] !== 'absent', stop: ctx.job.consts?.StopAns?.set?.[0] !== 'default', step: ctx.job.consts?.StepCbs?.set?.[0] !== 'absent', finish: streaming && ctx.job.consts?.FinCbs?.set?.[0] !== 'absent' }
  // responses are rendered up front so that expectations exist before events happen
  for (const x of b.h) if (x.e === 'half' || x.e === 'respond') R.step(x.n, x.r)

  // --------------------------------------------------------- what really happens
  const log = []
  const controller = new AbortController()
  const toolRuns = new Map()
  let pendingFetch
  let body
  let reqNo = 0
  const startInfo = b.h[0]
  const honour = startInfo.fetch === 'honour'
  let ended
  const leaked = []

  const fetchImpl = async (url, init) => {
    const n = ++reqNo
    const rec = { body: undefined, init, n, o: 'req', url: String(url) }
    try { rec.body = JSON.parse(init.body) } catch (e) { rec.bodyError = e }
    log.push(rec)
    spanRequests.set(n, rec)
    // inputs handed out by the preparation hook earlier may change as soon as the request is out
    for (const l of leaked.splice(0)) l()
    if (init.signal?.aborted) throw init.signal.reason
    if (!windows.some(w => w.obs.some(o => o.o === 'req' && o.n === n)) || ended)
      throw new Error('unexpected request')
    const d = deferred()
    pendingFetch = d
    if (honour && init.signal)
      init.signal.addEventListener('abort', () => { d.reject(init.signal.reason); body?.error(init.signal.reason) })
    return d.promise
  }
  const spuriousGlobalFetch = []
  const realFetch = globalThis.fetch
  if (!ctx.shared) globalThis.fetch = async (...a) => { spuriousGlobalFetch.push(a); throw new Error('global fetch used') }
  // a run that is given a retrying fetch: the server is busy now and then, the run must not notice
  let busy = 0
  let refusals = 0
  let refused
  if (ctx.job.retrying) {
    globalThis.fetch = async (url, init) => {
      busy++
      const seen = { init: { ...init, headers: Object.entries(init?.headers ?? {}), signal: undefined }, url: String(url) }
      if (refused && !eq(refused, seen)) ctx.diff('request', `a retry sends ${show(seen)}, the first attempt ${show(refused)}`)
      if (init?.signal !== controller.signal) ctx.diff('abort', `attempt ${refusals + 1} of a request is not given the abort signal`)
      if (refusals < 3 && r.bool(0.5)) {
        refusals++
        refused = seen
        ctx.count('retried')
        await tick()
        return new Response('busy', { status: r.pick([408, 429, 500, 503, 504]) })
      }
      refusals = 0
      refused = undefined
      busy = 0
      return fetchImpl(url, init)
    }
  }

  const maybeAsync = (f) => (r.bool() ? async (...a) => f(...a) : f)
  const answer = (kind) => { const q = scripts[kind]; return q.length > 0 ? q.shift() : undefined }

  const prepOverrides = new Map()
  const overrideFor = (n) => {
    if (!prepOverrides.has(n)) {
      prepOverrides.set(n, {
        model: n % 2 ? `other-${n}` : `lab/Other ${n}`,
        toolChoice: r.pick(api === 'resp' ? [{ name: R.toolNames[0], type: 'function' }, 'none', 'auto'] : ['none', 'auto', { function: { name: R.toolNames[0] }, type: 'function' }]),
        input: r.bool(0.1) ? [] : api === 'resp' ? [{ content: `override ${n}`, role: 'user', type: 'message' }] : [{ content: `override ${n}`, role: 'user' }],
      })
    }
    return prepOverrides.get(n)
  }

  const startTool = (name, input, o) => {
    const id = o.toolCallId
    const key = R.keyOf(id, input)
    const run = { d: deferred(), id, input, key, name, o: 'tool', options: o, history: structuredClone(o.messages ?? []) }
    toolRuns.set(key, run)
    log.push(run)
    return run.d.promise
  }
  kit?.owners.set(controller.signal, startTool)
  // who calls nothing that exists may have no tools at all
  const toolless = !kit && b.h.every(x => !x.r || x.r.kinds.every(k => k === 'unknown')) && r.bool(0.4)
  const tools = toolless ? r.pick([undefined, []]) : kit?.half ? kit.tools.map(t => ({ ...t, execute: (input, o) => startTool(t.function.name, input, o) })) : kit?.tools ?? R.toolNames.map(name => ({
    execute: (input, o) => startTool(name, input, o),
    function: { description: `does ${name}`, name, parameters: { properties: { a: { type: 'string' } }, type: 'object' }, strict: true },
    type: 'function',
    ...(r.bool() ? { validate: v => (r.bool() ? { value: v } : Promise.resolve({ value: v })) } : {}),
  }))

  const server = r.pick([{ url: 'http://api.test/v1/', at: 'api.test', port: 80 }, { url: 'http://api.test/v1', at: 'api.test', port: 80 }, ...(b.sp ? [{ url: 'https://h-2.api.test/v1/', at: 'h-2.api.test', port: 443 }, { url: 'http://127.0.0.1:11434/v1', at: '127.0.0.1', port: 11434 }, { url: 'https://localhost:8/', at: 'localhost', port: 8 }, { url: 'http://api.test:443/v1', at: 'api.test', port: 443 }] : [])])
  let onEventLog = []
  const callerInput = structuredClone(R.user)
  const options = {
    abortSignal: controller.signal,
    apiKey: 'sk-test',
    baseURL: b.sp && r.bool() ? new URL(server.url) : server.url,
    fetch: ctx.job.retrying ? createFetch({ retry: 3, retryDelay: 0 }) : fetchImpl,
    [api === 'resp' ? 'input' : 'messages']: callerInput,
    model: R.model,
    tools,
    toolChoice: R.toolChoice,
  }
  if (has.prep) {
    let prepCount = 0
    options.prepareStep = maybeAsync((o) => {
      const n = ++prepCount
      log.push({ o: 'prep', args: structuredClone({ input: o.input, model: o.model, stepNumber: o.stepNumber, steps: o.steps }) })
      const ans = answer('prep') ?? 'none'
      const ov = overrideFor(n)
      const input = structuredClone(ov.input)
      const mutate = () => {
        try { o.input.push({ content: 'evil', role: 'user' }) } catch {}
        try { for (const m of o.input) for (const k of Object.keys(m)) m[k] = 'evil' } catch {}
        try { for (const s of o.steps) { s.finishReason = 'evil'; s.text = 'evil'; s.toolCalls.length = 0 } o.steps.push({ evil: 1 }) } catch {}
        try { o.model = 'evil'; o.stepNumber = 99 } catch {}
      }
      switch (ans) {
        case 'none': return r.pick([{}, undefined, { input: undefined, model: undefined, toolChoice: undefined }])
        case 'model': return { model: ov.model }
        case 'tool': return { toolChoice: ov.toolChoice }
        case 'input': return { input }
        case 'all': return { input, model: ov.model, toolChoice: ov.toolChoice }
        case 'mutate': mutate(); return r.bool() ? {} : undefined
        case 'leak': leaked.push(() => { input.push({ content: 'late', role: 'user' }); input[0].content = 'late' }); mutate(); return { input }
        case 'throw': throw R.err.prep
        case 'abort': controller.abort(R.abortReason); return {}
      }
    })
  }
  if (has.stop) {
    options.stopWhen = (c) => {
      const snap = { input: structuredClone(c.input), steps: structuredClone(c.steps), step: structuredClone(c.step), last: c.steps.at(-1) === c.step || eq(c.steps.at(-1), c.step) }
      log.push({ o: 'stop', ctx: snap })
      const ans = answer('stop')
      if (ans === 'throw') throw R.err.stop
      if (ans === 'abort') controller.abort(R.abortReason)
      return ans === 'yes' || ans === undefined
    }
  }
  if (has.step) {
    const f = (step) => {
      log.push({ o: 'step', step: structuredClone(step) })
      const ans = answer('step')
      if (ans === 'throw') throw R.err.stepcb
      if (ans === 'abort') controller.abort(R.abortReason)
    }
    options.onStepFinish = api === 'gen' ? maybeAsync(f) : f
  }
  if (has.finish) {
    options.onFinish = maybeAsync((step) => {
      log.push({ o: 'finish', step: structuredClone(step) })
      if (answer('finish') === 'throw') throw R.err.fincb
    })
  }
  if (streaming) {
    options.onEvent = (e) => {
      onEventLog.push(structuredClone(e))
      if (startInfo.ev > 0 && onEventLog.length === startInfo.ev) throw R.err.evcb
    }
    options.streamOptions = r.bool() ? { includeUsage: true } : undefined
  }
  // the caller's attributes, which may be about what is told anyway
  const meta = { 'user.tag': tag, ...(b.sp && r.bool(0.3) ? r.pick([{ 'gen_ai.provider.name': 'acme' }, { 'server.address': 'proxy', 'server.port': 1 }, { 'gen_ai.response.id': 'own', 'list': ['a', 'b'], 'n': 0, 'no': false }]) : {}) }
  if (flavour.startsWith('t')) options.telemetry = { attributes: { ...meta } }
  const params = {}
  if (flavour.startsWith('t') && r.bool(0.5)) {
    Object.assign(params, { frequencyPenalty: r.pick([0, 0.5, undefined]), presencePenalty: r.pick([0, -1, undefined]), seed: r.pick([0, 7, undefined]), stop: r.pick([undefined, 'x', 'END', ['a', 'b']]), temperature: r.pick([0, 0.7, undefined]), topK: r.pick([1, undefined]), topP: r.pick([0.1, undefined]) })
    Object.assign(options, params)
  }
  const toolsSnapshot = (tools ?? []).map(t => ({ ...t, function: structuredClone(t.function) }))
  let callerSpan
  const spanRequests = new Map()

  // a caller may freeze what it passes in as long as nobody modifies it
  const optionsSnapshot = { ...options }
  const inputSnapshot = structuredClone(R.user)

  // --------------------------------------------------------- comparison of one observation
  const histDiff = (actual, msgs, what, facet = 'messages') => {
    const d = diffHistory(api, actual, R.history(msgs))
    if (d) ctx.diff(facet, `${what}: ${d}`)
  }
  const stepExpect = (n) => b.steps[n - 1]
  const executedOuts = ab => ab.outs.length > 0
  const checkStep = (actual, n, what, facet = 'step') => {
    const ab = b.steps[n - 1]
    const st = R.steps.get(n)
    if (actual == null) { ctx.diff(facet, `${what}: no step ${n}`); return }
    if (!R.finishOk(st, actual.finishReason)) ctx.diff(facet, `${what}: finishReason ${show(actual.finishReason)}, expected ${show(R.finishReason(st))}`)
    if (!R.textOk(st, actual.text)) ctx.diff(facet, `${what}: text ${show(actual.text)}, expected ${show(st.text)}`)
    checkCalls(actual, ab, st, what, facet)
    if (!eq(actual.usage ?? undefined, R.usageOut(st.usage))) ctx.diff('usage', `${what}: usage of step ${n} is ${show(actual.usage)}, expected ${show(R.usageOut(st.usage))}`)
  }
  const checkCalls = (actual, ab, st, what, facet) => {
    const wantCalls = st.calls.map(c => R.toolCall(c))
    if (!eq(actual.toolCalls, wantCalls)) ctx.diff(facet, `${what}: toolCalls ${show(actual.toolCalls)}, expected ${show(wantCalls)}`)
    const outs = ab?.outs ?? []
    const wantRes = outs.map((o, i) => R.result(st.calls[i], o))
    if (!Array.isArray(actual.toolResults) || actual.toolResults.length !== wantRes.length || !actual.toolResults.every((x, i) => matchResult(x, wantRes[i])))
      ctx.diff('results', `${what}: toolResults ${show(actual.toolResults)}, expected ${show(wantRes)}`)
  }

  const checkObs = (want, got) => {
    switch (want.o) {
      case 'req': {
        const ov = has.prep ? overrideFor(want.n) : {}
        if (!got.body) { ctx.diff('messages', `request ${want.n} has no JSON body: ${show(got.init?.body)}`); return }
        const sent = got.body[api === 'resp' ? 'input' : 'messages']
        if (['input', 'all', 'leak'].includes(want.ov)) {
          if (!eq(sent, ov.input)) ctx.diff('prep', `request ${want.n} input ${show(sent)}, expected the prepared ${show(ov.input)}`)
        }
        else histDiff(sent, want.msgs, `request ${want.n}`)
        const model = ['model', 'all'].includes(want.ov) ? ov.model : R.model
        if (got.body.model !== model) ctx.diff('prep', `request ${want.n} model ${show(got.body.model)}, expected ${model}`)
        const tc = ['tool', 'all'].includes(want.ov) ? ov.toolChoice : R.toolChoice
        if (!eq(got.body.tool_choice, tc)) ctx.diff('prep', `request ${want.n} tool_choice ${show(got.body.tool_choice)}, expected ${show(tc)}`)
        if (got.body.tools?.length !== tools?.length) ctx.diff('request', `request ${want.n} offers ${got.body.tools?.length} tools, expected ${tools?.length}`)
        if (got.body.stream !== streaming) ctx.diff('request', `request ${want.n} stream ${got.body.stream}`)
        for (const k of ['steps', 'total_usage', 'stop_when', 'on_event', 'prepare_step', 'telemetry', 'on_finish', 'api_key', 'headers', 'abort_signal', 'base_url'])
          if (k in got.body) ctx.diff('request', `request ${want.n} contains ${k}`)
        if (got.init.signal !== controller.signal) ctx.diff('abort', `request ${want.n} does not carry the caller's abort signal`)
        return
      }
      case 'prep': {
        const a = got.args
        if (a.stepNumber !== want.n - 1) ctx.diff('prep', `prepareStep got stepNumber ${a.stepNumber}, expected ${want.n - 1}`)
        if (a.model !== R.model) ctx.diff('prep', `prepareStep got model ${a.model}, expected ${R.model}`)
        histDiff(a.input, want.msgs, `input of prepareStep ${want.n}`, 'prep')
        if (a.steps.length !== want.steps) ctx.diff('prep', `prepareStep ${want.n} got ${a.steps.length} steps, expected ${want.steps}`)
        else a.steps.forEach((s, i) => checkStep(s, i + 1, `steps[${i}] of prepareStep ${want.n}`, 'prep'))
        return
      }
      case 'stop': {
        const c = got.ctx
        if (c.steps.length !== want.steps) ctx.diff('stop', `stop condition of step ${want.n} got ${c.steps.length} steps, expected ${want.steps}`)
        else c.steps.slice(0, -1).forEach((s, i) => checkStep(s, i + 1, `steps[${i}] of stop condition ${want.n}`, 'stop'))
        if (!c.last) ctx.diff('stop', `stop condition ${want.n}: the last of steps is not the current step`)
        const st = R.steps.get(want.n)
        if (!eq(c.step.toolCalls, st.calls.map(x => R.toolCall(x)))) ctx.diff('stop', `stop condition ${want.n}: toolCalls ${show(c.step.toolCalls)}`)
        if (!R.textOk(st, c.step.text)) ctx.diff('stop', `stop condition ${want.n}: text ${show(c.step.text)}, expected ${show(st.text)}`)
        if (!R.finishOk(st, c.step.finishReason)) ctx.diff('stop', `stop condition ${want.n}: finishReason ${show(c.step.finishReason)}`)
        if (!eq(c.step.usage ?? undefined, R.usageOut(st.usage))) ctx.diff('usage', `stop condition ${want.n}: usage ${show(c.step.usage)}, expected ${show(R.usageOut(st.usage))}`)
        histDiff(c.input, want.msgs, `input of stop condition ${want.n}`, 'stop')
        return
      }
      case 'tool': {
        const c = R.call(want.n, want.i)
        if (got.id !== c.id) ctx.diff('tools', `call ${c.key} executed with the id ${show(got.id)}, expected ${show(c.id)}`)
        if (got.name !== c.name) ctx.diff('tools', `call ${c.id} executed tool ${got.name}, expected ${c.name}`)
        if (!eq(got.input, c.value)) ctx.diff('tools', `call ${c.id} executed with ${show(got.input)}, expected ${show(c.value)}`)
        if (api !== 'resp') histDiff(got.history, want.msgs, `messages given to the tool of call ${c.id}`)
        if (got.options.abortSignal !== controller.signal) ctx.diff('abort', `tool ${c.id} does not get the caller's abort signal`)
        return
      }
      case 'step': checkStep(got.step, want.n, `onStepFinish ${want.n}`); return
      case 'finish':
        if (want.steps === 0) { if (got.step !== undefined) ctx.diff('finish', `onFinish got ${show(got.step)}, expected no step`) }
        else checkStep(got.step, want.steps, 'onFinish', 'finish')
        return
      case 'end': checkEnd(want, got)
    }
  }

  const checkError = (e, code, what) => {
    const same = x => { if (e !== x) ctx.diff('error', `${what} failed with ${show(e)}, expected exactly ${show(x)}`) }
    switch (code) {
      case 'net': return same(R.err.net)
      case 'prep': case 'stop': case 'stepcb': case 'fincb': case 'cut': return same(R.err[code])
      // a reason of null tells nothing
      case 'abort': if (!(controller.signal.reason === null && e instanceof Error)) same(controller.signal.reason); return
      case 'http': if (!(APICallError.isInstance(e) && e.statusCode === 429 && e.responseBody === 'slow down')) ctx.diff('error', `${what} failed with ${show(e)}, expected an API call error`); return
      case 'empty': if (!(InvalidResponseError.isInstance(e) && e.reason === 'empty_body')) ctx.diff('error', `${what} failed with ${show(e)}, expected an empty-body error`); return
      case 'nochoices': if (!(InvalidResponseError.isInstance(e) && e.reason === 'no_choices')) ctx.diff('error', `${what} failed with ${show(e)}, expected a no-choices error`); return
      case 'badjson': if (!(JSONParseError.isInstance(e) && e.text === '{"broken":')) ctx.diff('error', `${what} failed with ${show(e)}, expected a JSON parse error`); return
      case 'srverr': if (!(RemoteAPIError.isInstance(e) && e.responseBody === '{"error":{"message":"boom"}}')) ctx.diff('error', `${what} failed with ${show(e)}, expected a remote API error`); return
      case 'badcall': if (!(InvalidToolCallError.isInstance(e) && e.reason === 'missing_name')) ctx.diff('error', `${what} failed with ${show(e)}, expected an invalid tool call error`); return
      case 'evcb': return same(R.err.evcb)
    }
    ctx.diff('error', `${what} failed with ${show(e)}, but the model says ${code}`)
  }

  const checkTotals = (usage, total) => {
    const lastStep = b.steps.at(-1)
    const wantU = lastStep ? R.usageOut(R.steps.get(lastStep.n).usage) : undefined
    if (!eq(usage ?? undefined, wantU)) ctx.diff('usage', `result usage ${show(usage)}, expected ${show(wantU)}`)
    let sum
    for (const s of b.steps) {
      const u = R.usageOut(R.steps.get(s.n).usage)
      if (u) sum = sum ? { inputTokens: sum.inputTokens + u.inputTokens, outputTokens: sum.outputTokens + u.outputTokens, totalTokens: sum.totalTokens + u.totalTokens } : u
    }
    if (!eq(total ?? undefined, sum)) ctx.diff('usage', `total usage ${show(total)}, expected ${show(sum)}`)
  }

  const checkSteps = (steps, what) => {
    if (!Array.isArray(steps) || steps.length !== b.steps.length) { ctx.diff('step', `${what}: ${show(steps?.length)} steps, expected ${b.steps.length}`); return }
    steps.forEach((s, i) => checkStep(s, i + 1, `${what}[${i}]`))
  }

  const checkEnd = (want, got) => {
    if (got.unobserved) return
    if (got.failed || want.err !== '') {
      if (want.err === '') { ctx.diff('outcome', `the run failed with ${show(got.err)}${got.err?.stack ? ` ${got.err.stack}` : ''}, expected success`); return }
      if (!got.failed) { ctx.diff('outcome', `the run succeeded, expected failure ${want.err}`); return }
      checkError(got.err, want.err, 'the run')
      return
    }
    if (!streaming) {
      const res = got.value
      const last = b.steps.at(-1); const st = R.steps.get(last.n)
      checkSteps(res.steps, 'result steps')
      histDiff(res.messages, b.msgs, 'result messages')
      if (!R.textOk(st, res.text)) ctx.diff('result', `result text ${show(res.text)}, expected ${show(st.text)}`)
      if (!R.finishOk(st, res.finishReason)) ctx.diff('result', `result finishReason ${show(res.finishReason)}`)
      if (!eq(res.reasoningText ?? undefined, st.reason)) ctx.diff('result', `result reasoningText ${show(res.reasoningText)}, expected ${show(st.reason)}`)
      checkCalls(res, last, st, 'result', 'result')
      checkTotals(res.usage, res.totalUsage)
    }
  }

  // --------------------------------------------------------- end of the run
  let result
  const collectors = {}
  const watched = {}
  const promiseNames = [api === 'resp' ? 'input' : 'messages', 'steps', 'usage', 'totalUsage']
  let watchSet = promiseNames
  const modes = {}
  const afterStart = () => {
    if (!streaming) {
      result.then((value) => { ended = true; log.push({ o: 'end', value }) }, (err) => { ended = true; log.push({ o: 'end', err, failed: true }) })
      return
    }
    // which outputs this consumer looks at
    const failing = b.err !== ''
    for (const s of Object.keys(STREAMS)) {
      const cancelled = b.cut[s] !== 9999
      modes[s] = !opts.lazy || cancelled || failing ? 'eager' : r.pick(['eager', 'late', 'late'])
      if (modes[s] === 'eager') collectors[s] = collect(result[STREAMS[s]])
    }
    if (opts.partial && has.finish) watchSet = r.pick([[], ['steps'], ['usage'], promiseNames])
    for (const p of watchSet) watched[p] = watchPromise(result[p])
    const endCond = () => Object.values(watched).every(w => w.state !== 'pending') && Object.values(collectors).every(c => c.state !== 'open')
    const anyOutput = Object.keys(watched).length > 0 || Object.values(collectors).some((c, i) => b.cut[Object.keys(collectors)[i]] === 9999)
    void (async () => {
      for (let i = 0; i < 100000; i++) {
        if (anyOutput && endCond()) break
        // nobody looks at the outputs: only the finish callback tells that the run is over
        if (!anyOutput && log.some(x => x.o === 'finish')) break
        await tick()
        if (stopPolling) return
      }
      const failedW = Object.values(watched).find(w => w.state === 'rejected')
      const failedC = Object.values(collectors).find(c => c.state === 'errored')
      log.push({ o: 'end', err: failedW?.error ?? failedC?.error, failed: !!(failedW || failedC), unobserved: !anyOutput })
      ended = true
    })()
  }
  let stopPolling = false

  const open = (n) => {
    body = controlledBody()
    pendingFetch.resolve(streamResponse(body.stream))
  }
  const pushParts = (n, part) => {
    const st = R.steps.get(n)
    const bytes = bytesOf(st.parts[part].map(x => sseEvent(JSON.stringify(x), r)).join(''))
    for (const c of splitBytes(bytes, r)) body.push(c)
  }

  const act = (env) => {
    switch (env.e) {
      case 'start': {
        if (env.pre) controller.abort(R.abortReason)
        const mod = { gen: () => gt.generateText(options), resp: () => rsp.responses(options), stream: () => stx.streamText(options), tgen: () => tel.generateText(options), tstream: () => tel.streamText(options) }[flavour]
        if (b.sp && r.bool(0.5)) [result, callerSpan] = inSpan(mod)
        else result = mod()
        afterStart()
        return
      }
      case 'half': open(env.n); pushParts(env.n, 1); return
      case 'respond': {
        // the caller modifies its own messages while the run is under way
        if (env.n === 1 && opts.mutate !== false && r.bool(0.5)) {
          const own = options[api === 'resp' ? 'input' : 'messages']
          if (Array.isArray(own)) {
            for (const m of own) {
              if (Array.isArray(m.content)) { for (const p of m.content) for (const k of Object.keys(p)) p[k] = 'changed by the caller'; if (r.bool()) m.content.push({ text: 'added by the caller', type: 'text' }) }
              else if (r.bool()) m.content = 'changed by the caller'
            }
            own.push({ content: 'added by the caller', role: 'user' })
            callerMutated = true
          }
        }
        if (api === 'gen') { pendingFetch.resolve(jsonResponse(R.steps.get(env.n).body)); return }
        if (!env.half) { open(env.n); pushParts(env.n, 1) }
        pushParts(env.n, 2)
        if (api === 'resp') pushParts(env.n, 3)
        if (r.bool(0.8)) body.push(bytesOf(sseEvent('[DONE]', r)))
        body.close()
        return
      }
      case 'fail':
        switch (env.f) {
          case 'net': pendingFetch.reject(R.err.net); return
          case 'http': pendingFetch.resolve(new Response('slow down', { status: 429 })); return
          case 'empty': pendingFetch.resolve(new Response(null)); return
          case 'nochoices': pendingFetch.resolve(jsonResponse(r.bool() ? { choices: [], usage: { completion_tokens: 0, prompt_tokens: 0, total_tokens: 0 } } : r.bool() ? { error: { message: 'boom' } } : { usage: { completion_tokens: 0, prompt_tokens: 0, total_tokens: 0 } })); return
          case 'badjson': {
            if (api === 'gen') { pendingFetch.resolve(new Response('{"broken":')); return }
            if (!env.half) open(env.n)
            body.push(bytesOf(sseEvent('{"broken":', r)))
            if (r.bool()) body.close()
            return
          }
          case 'srverr':
            if (!env.half) open(env.n)
            body.push(bytesOf(sseEvent('{"error":{"message":"boom"}}', r)))
            if (r.bool()) body.close()
            return
          case 'cut':
            if (!env.half) open(env.n)
            body.error(R.err.cut)
        }
        return
      case 'tool': {
        const c = R.call(env.n, env.i)
        const t = toolRuns.get(c.key)
        if (!t) { ctx.diff('tools', `tool call ${c.id} was not started`); return false }
        if (env.out === 'ok') t.d.resolve(c.returns)
        else t.d.reject(c.throws)
        return
      }
      case 'abort': controller.abort(R.abortReason); return
      case 'cancel': void collectors[env.s].cancel(); return
    }
    throw new Error(`unknown environment action ${env.e}`)
  }
  let callerMutated = false

  // --------------------------------------------------------- lock-step replay
  const counts = { event: 0, full: 0, reason: 0, text: 0 }
  const expectedItems = {
    event: n => b.evs.slice(0, n).flatMap(e => R.events(e)),
    full: n => b.full.slice(0, n).flatMap(x => R.steps.get(x.s).parts[x.p]),
    reason: n => b.rsn.slice(0, n).map(x => R.steps.get(x.s).reason),
    text: n => b.txts.slice(0, n).flatMap(x => R.pieces(x)),
  }
  let consumed = 0
  let position = 0
  let seen = 0
  let broken = false
  const isLoop = o => o !== 'tool'
  try {
    for (const w of windows) {
      // another run may be under way
      await ctx.turn?.()
      // everything that arrived so far has been handed to the readers (no buffering until the end)
      if (streaming && w.env.lens) {
        for (const [s, n] of [['text', w.env.lens.t], ['reason', w.env.lens.r]]) {
          const len = expectedItems[s](n).length
          const c = collectors[s]
          if (c && c.state === 'open' && c.items.length !== len) ctx.diff(s, `before ${show(w.env)}: ${c.items.length} items delivered on the ${s} stream, expected ${len}`)
        }
      }
      if (act(w.env) === false) { broken = true; break }
      const target = seen + w.obs.length
      const minTarget = seen + w.obs.filter(o => !o.opt).length
      const arrived = () => log.length >= target || (w.obs.some(o => o.opt) && log.length >= minTarget && log.some((x, i) => i >= seen && x.o === w.obs.at(-1).o))
      await until(arrived, { extra: streaming ? 3 : 2 })
      for (let i = 0; busy > 0 && i < 1000; i++) {
        await new Promise(resolve => setTimeout(resolve, 1))
        await until(arrived, { extra: streaming ? 3 : 2 })
      }
      const got = log.slice(seen)
      // tools of one step start in any order
      const norm = (xs, key) => {
        const out = []; let i = 0
        while (i < xs.length) {
          let j = i
          while (j < xs.length && xs[j].o === 'tool') j++
          if (j > i) { out.push(...xs.slice(i, j).sort((a, c) => key(a) < key(c) ? -1 : 1)); i = j }
          else out.push(xs[i++])
        }
        return out
      }
      const wantN = norm(w.obs, x => x.o === 'tool' ? R.call(x.n, x.i).key : '')
      const gotN = norm(got, x => x.o === 'tool' ? String(x.key) : '')
      let gi = 0
      for (const want of wantN) {
        const g = gotN[gi]
        const idOk = g && g.o === want.o && (want.o !== 'tool' || g.key === R.call(want.n, want.i).key)
        if (idOk) { checkObs(want, g); gi++; continue }
        if (want.opt) continue
        const facet = { end: 'outcome', finish: 'finish', prep: 'prep', req: 'req', step: 'step', stop: 'stop', tool: 'tools' }[want.o]
        ctx.diff(facet, `after ${show(w.env, 200)}: expected ${show({ i: want.i, n: want.n, o: want.o })} but saw ${g ? show({ id: g.id, n: g.n, o: g.o }) + (g.err ? ` (${show(g.err)})` : '') : 'nothing'}`)
        // the attribution of a run that went off the rails: also as the surplus kind
        if (g && g.o !== want.o) ctx.diff({ end: 'outcome', finish: 'finish', prep: 'prep', req: 'req', step: 'step', stop: 'stop', tool: 'tools' }[g.o], `after ${show(w.env, 200)}: unexpected ${g.o}`)
        broken = true
        break
      }
      if (!broken && gi < gotN.length) {
        const g = gotN[gi]
        ctx.diff({ end: 'outcome', finish: 'finish', prep: 'prep', req: 'req', step: 'step', stop: 'stop', tool: 'tools' }[g.o], `after ${show(w.env, 200)}: unexpected ${show({ id: g.id, n: g.n, o: g.o })}`)
        broken = true
      }
      consumed++
      position += 1 + w.obs.length
      seen = log.length
      if (broken) break
      if (b.sp) checkSpans(w === windows.at(-1), `after ${show(w.env, 200)}`)
    }

    if (!broken) {
      // the library has nothing more to do
      if (log.length !== seen) ctx.diff('outcome', `after the end: unexpected ${log.slice(seen).map(x => x.o)}`)
      if (streaming) await checkStreams()
      if (ctx.job.again && b.err === '') await again()
      if (spuriousGlobalFetch.length > 0) ctx.diff('request', 'the global fetch was used although a fetch was supplied')
      const own = options[api === 'resp' ? 'input' : 'messages']
      if (!callerMutated && !eq(own, inputSnapshot)) ctx.diff('input', `the caller's ${api === 'resp' ? 'input' : 'messages'} were modified: ${show(own)}`)
      if (!eq(Object.keys(options), Object.keys(optionsSnapshot)) || Object.keys(options).some(k => options[k] !== optionsSnapshot[k])) ctx.diff('input', 'the caller\'s options were modified')
      for (const [i, t] of (tools ?? []).entries()) if (!eq(Object.keys(t), Object.keys(toolsSnapshot[i])) || t.execute !== toolsSnapshot[i].execute || t.validate !== toolsSnapshot[i].validate || !eq(t.function, toolsSnapshot[i].function)) ctx.diff('input', `the caller's tool ${t.function?.name} was modified`)
      await settle(2)
      if (ctx.unhandled.length > 0) ctx.diff('unhandled', `unhandled rejection: ${show(ctx.unhandled[0])}`)
    }
  }
  finally {
    stopPolling = true
    if (!ctx.shared) globalThis.fetch = realFetch
    // let the run go
    for (const t of toolRuns.values()) t.d.resolve('late')
    pendingFetch?.reject(new Error('over'))
    body?.close()
    await settle(broken ? 6 : 1)
    if (broken && streaming && result) for (const p of promiseNames) Promise.resolve(result[p]).catch(() => {})
    if (broken) { await settle(3); ctx.unhandled.length = 0 }
  }
  for (const k of ['prep', 'stop', 'step', 'finish']) if (!broken && scripts[k].length > 0) ctx.diff(k, `${k} callback was called too few times`)
  if (!broken) ctx.count(`end:${b.err || 'ok'}`)
  ctx.count('windows', consumed)
  return { flavour, behaviour: b.h.map(x => x.e ? `env ${x.e}${x.n ? ` ${x.n}` : ''}${x.i ? `.${x.i} ${x.out}` : ''}` : `obs ${x.o}${x.n ? ` ${x.n}` : ''}${x.ans ? ` -> ${x.ans}` : ''}${x.err !== undefined ? ` ${x.err || 'ok'}` : ''}`) }

  function checkSpans(last, at) {
    const all = allSpans().filter(s => !s.own)
    const allChats = all.filter(s => attrs(s)['gen_ai.operation.name'] === 'chat')
    const allTools = all.filter(s => attrs(s)['gen_ai.operation.name'] === 'execute_tool')
    // with several runs at once those of this run are told by its own attributes, and by their parents
    const chats = ctx.shared ? allChats.filter(s => attrs(s)['user.tag'] === tag) : allChats
    const toolSpans = ctx.shared ? allTools.filter(s => chats.some(c => c.id === s.parent)) : allTools
    const stray = allTools.find(s => !allChats.some(c => c.id === s.parent))
    if (ctx.shared && stray) ctx.diff('spans', `${at}: the span ${stray.name} is not nested in that of a step`)
    if (allChats.length + allTools.length !== all.length) ctx.diff('spans', `${at}: other spans ${show(all.map(s => s.name))}`)
    const due = b.sp.filter(s => s.at <= position)
    const wantChats = due.filter(s => s.kind === 'chat')
    // a run aborted beforehand need not have begun the step's operation
    const opt = s => s.at === s.to && s.err === 'abort'
    if (chats.length !== wantChats.length && !(opt(wantChats.at(-1) ?? {}) && chats.length === wantChats.length - 1)) { ctx.diff('spans', `${at}: ${chats.length} step spans, expected ${wantChats.length}`); return }
    const state = (rec, want, what) => {
      const ended = want.to > 0 && want.to <= position
      if (rec.ends !== (ended ? 1 : 0)) { ctx.diff('spans', `${at}: the span of ${what} was ended ${rec.ends} times, expected ${ended ? 1 : 0}`); return false }
      return ended
    }
    for (const [k, rec] of chats.entries()) {
      const want = wantChats[k]
      const ended = state(rec, want, `step ${want.n}`)
      if (rec.parent !== callerSpan?.id) ctx.diff('spans', `${at}: the parent of the span of step ${want.n} is ${show(rec.parent)}, expected ${callerSpan?.id}`)
      if (!ended || !last) continue
      ctx.count('spans:step')
      const a = attrs(rec)
      const failed = want.st === 'error'
      if (failedSpan(rec) !== failed) ctx.diff('status', `the span of step ${want.n} has status ${show(rec.span.status)}, the step ${failed ? 'failed' : 'succeeded'}`)
      const ex = exceptions(rec)
      const e = log.find(x => x.o === 'end')?.err
      if (failed && e instanceof Error && b.err !== 'fincb') {
        if (ex.length !== 1 || ex[0]['exception.message'] !== e.message) ctx.diff('status', `the span of step ${want.n} recorded ${show(ex)}, expected ${show(e.message)}`)
      }
      else if (ex.length && !failed) ctx.diff('status', `the span of step ${want.n} recorded ${show(ex)}`)
      const sent = spanRequests.get(want.n)?.body
      const expect = (k, v) => { if (!eq(a[k], v)) ctx.diff('attrs', `span of step ${want.n}: ${k} is ${show(a[k])}, expected ${show(v)}`) }
      const parsed = (k) => { try { return JSON.parse(a[k]) } catch { return undefined } }
      for (const [k, v] of Object.entries({ 'server.address': server.at, 'server.port': server.port, ...meta })) expect(k, v)
      if (sent) {
        expect('gen_ai.request.model', sent.model)
        if (!rec.name.includes(sent.model)) ctx.diff('attrs', `the span of step ${want.n} is named ${rec.name}, model ${sent.model}`)
        if (!eq(parsed('gen_ai.input.messages'), sent.messages)) ctx.diff('attrs', `span of step ${want.n}: input messages ${show(a['gen_ai.input.messages'])}, sent ${show(sent.messages)}`)
        if (!eq(parsed('gen_ai.tool.definitions')?.map(t => t.function), sent.tools?.map(t => t.function))) ctx.diff('attrs', `span of step ${want.n}: tool definitions ${show(a['gen_ai.tool.definitions'])}`)
        for (const [k, v] of Object.entries({ 'gen_ai.request.frequency_penalty': params.frequencyPenalty, 'gen_ai.request.presence_penalty': params.presencePenalty, 'gen_ai.request.seed': params.seed, 'gen_ai.request.stop_sequences': params.stop === undefined ? undefined : [params.stop].flat(), 'gen_ai.request.temperature': params.temperature, 'gen_ai.request.top_k': params.topK, 'gen_ai.request.top_p': params.topP })) expect(k, v)
      }
      const st = R.steps.get(want.n)
      const must = (k, v) => { if (!failed || k in a) expect(k, v) }
      if (st && (want.ans || !failed)) {
        const u = R.usageOut(st.usage)
        must('gen_ai.usage.input_tokens', u?.inputTokens); must('gen_ai.usage.output_tokens', u?.outputTokens)
        must('gen_ai.response.finish_reasons', R.finishReason(st) === undefined ? a['gen_ai.response.finish_reasons'] : [R.finishReason(st)])
        if (!failed || 'gen_ai.output.messages' in a) {
          const d = diffHistory(api, [{}, ...(parsed('gen_ai.output.messages') ?? [])], [{}, st.message])
          if (d) ctx.diff('attrs', `span of step ${want.n}: output messages: ${d}`)
        }
      }
      else for (const k of ['gen_ai.usage.input_tokens', 'gen_ai.usage.output_tokens', 'gen_ai.response.finish_reasons', 'gen_ai.output.messages']) if (k in a) ctx.diff('attrs', `span of step ${want.n} without an answer has ${k} ${show(a[k])}`)
    }
    const wantTools = due.filter(s => s.kind === 'tool')
    if (toolSpans.length !== wantTools.length) { ctx.diff('spans', `${at}: ${toolSpans.length} tool spans, expected ${wantTools.length}`); return }
    for (const want of wantTools) {
      const c = R.call(want.n, want.i)
      const found = toolSpans.filter(s => attrs(s)['gen_ai.tool.call.id'] === c.id)
      if (found.length !== 1) { ctx.diff('spans', `${at}: ${found.length} spans for call ${c.id}`); continue }
      const [rec] = found
      const ended = state(rec, want, `call ${c.id}`)
      const parent = chats[wantChats.findIndex(x => x.n === want.n)]
      if (rec.parent !== parent?.id) ctx.diff('spans', `${at}: the span of call ${c.id} is not nested in that of its step`)
      const a = attrs(rec)
      if (a['gen_ai.tool.call.name'] !== c.name || !rec.name.includes(c.name)) ctx.diff('attrs', `the span of call ${c.id} names ${show(a['gen_ai.tool.call.name'])} ${rec.name}, expected ${c.name}`)
      if (a['gen_ai.tool.call.arguments'] !== JSON.stringify(c.value)) ctx.diff('attrs', `the span of call ${c.id} has arguments ${show(a['gen_ai.tool.call.arguments'])}, expected ${show(c.value)}`)
      if (!ended || !last) continue
      ctx.count('spans:tool')
      // an abort turns a tool's failure into an aborted call; the execution failed all the same
      const failed = want.st === 'error'
      if (failedSpan(rec) !== failed) ctx.diff('status', `the span of call ${c.id} has status ${show(rec.span.status)}, the tool ${failed ? 'failed' : 'succeeded'}`)
      const ex = exceptions(rec)
      if (failed ? c.throws instanceof Error && (ex.length !== 1 || ex[0]['exception.message'] !== c.throws.message) : ex.length > 0) ctx.diff('status', `the span of call ${c.id} recorded ${show(ex)}`)
      if (!failed && a['gen_ai.tool.call.result'] !== JSON.stringify(c.returns)) ctx.diff('attrs', `the span of call ${c.id} has result ${show(a['gen_ai.tool.call.result'])}, expected ${show(c.returns)}`)
      if (failed && 'gen_ai.tool.call.result' in a) ctx.diff('attrs', `the span of failed call ${c.id} has a result`)
    }
  }

  // the history of a finished run, and one more message of the user, is the beginning of the next one
  async function again() {
    const key = api === 'resp' ? 'input' : 'messages'
    const history = streaming ? await result[key] : log.find(x => x.o === 'end').value.messages
    const steps = streaming ? await result.steps : log.find(x => x.o === 'end').value.steps
    const plain = x => JSON.parse(JSON.stringify(x))
    const before = plain(history)
    const stepsBefore = plain(steps)
    const next = { content: 'and then?', role: 'user', ...(api === 'resp' ? { type: 'message' } : {}) }
    const own = r.bool()
    const given = own ? [...history, next] : history
    if (!own) history.push(next)
    let sent
    let answered = { content: 'so', role: 'assistant' }
    const usage = { completion_tokens: 1, prompt_tokens: 2, total_tokens: 3 }
    const second = { ...options, [key]: given, abortSignal: undefined, onEvent: undefined, onFinish: undefined, onStepFinish: undefined, prepareStep: undefined, stopWhen: undefined }
    second.fetch = async (_, init) => {
      if (sent) throw new Error('a second request')
      sent = JSON.parse(init.body)[key]
      if (api === 'gen') return jsonResponse({ choices: [{ finish_reason: 'stop', message: answered }], usage })
      if (api === 'resp') answered = { content: [{ annotations: [], text: 'so', type: 'output_text' }], id: 'm', role: 'assistant', status: 'completed', type: 'message' }
      const events = api === 'resp'
        ? [{ item: answered, output_index: 0, type: 'response.output_item.done' }, { response: { output: [answered], status: 'completed', usage: { input_tokens: 2, output_tokens: 1, total_tokens: 3 } }, type: 'response.completed' }]
        : [{ choices: [{ delta: { content: 'so', role: 'assistant' }, finish_reason: null, index: 0 }] }, { choices: [{ delta: {}, finish_reason: 'stop', index: 0 }], usage }]
      const c = controlledBody()
      c.push(bytesOf(events.map(x => sseEvent(JSON.stringify(x), r)).join('')))
      c.close()
      return streamResponse(c.stream)
    }
    try {
      const res = await { gen: gt.generateText, resp: rsp.responses, stream: stx.streamText, tgen: tel.generateText, tstream: tel.streamText }[flavour](second)
      const hist = plain(await res[key])
      const steps2 = plain(await res.steps)
      const total = plain(await res.totalUsage)
      const want = [...before, next]
      if (!eq(sent, want)) ctx.diff('messages', `the conversation continued with the history of the run: sent ${show(sent)}, expected ${show(want)}`)
      const last = hist.pop()
      if (!eq(hist, want) || (api === 'resp' ? !eq(last, answered) : last?.content !== 'so')) ctx.diff('messages', `the conversation continued with the history of the run: result ${show([...hist, last])}, expected ${show([...want, answered])}`)
      if (steps2.length !== 1 || !eq(total, { inputTokens: 2, outputTokens: 1, totalTokens: 3 })) ctx.diff('messages', `the continued conversation has ${steps2.length} steps and total usage ${show(total)}`)
      if (!eq(plain(history), own ? before : want) || !eq(plain(steps), stepsBefore)) ctx.diff('messages', 'continuing the conversation changed the results of the run before')
      ctx.count('again')
    }
    catch (e) {
      ctx.diff('messages', `the conversation cannot be continued with the history of the run: ${show(e)} ${e?.stack ?? ''}`)
    }
  }

  async function checkStreams() {
    const failed = b.err !== ''
    // events seen by the callback
    const wantEv = expectedItems.event()
    // What a failing run put on a stream at the very end may still be unread when the stream fails, and is then gone.
    // Everything that was there before the last thing that happened has been read.
    const lastLens = b.h.filter(x => x.lens).at(-1).lens
    const surely = { event: lastLens.v, full: lastLens.f, reason: lastLens.r, text: lastLens.t }
    for (const s of Object.keys(surely)) surely[s] = expectedItems[s](surely[s]).length
    const cmpEvents = (actual, want, what, facet, atLeast) => {
      const drop = xs => xs.filter(e => !(e.type === 'tool-call.delta' && !e.delta))
      const a = drop(actual); const w = drop(want)
      for (let i = 0; i < Math.max(a.length, w.length); i++) {
        if (atLeast !== undefined && i >= a.length && i >= atLeast) return
        const x = a[i]; const y = w[i]
        const { type, ...rest } = x ?? {}
        const ok = x !== undefined && y !== undefined && (y.$result ? type === 'tool-result.done' && matchResult(rest, y.$result) : eq(x, y))
        if (!ok) {
          const f = y?.type === 'step.done' && x?.type === 'step.done' ? 'usage' : facet
          ctx.diff(f, `${what} ${i} is ${show(x)}, expected ${show(y)}`)
          if (f !== 'usage') return
        }
      }
    }
    for (const s of Object.keys(STREAMS)) if (!collectors[s]) collectors[s] = collect(result[STREAMS[s]])
    for (const p of promiseNames) watched[p] ??= watchPromise(result[p])
    await until(() => Object.values(collectors).every(c => c.state !== 'open') && Object.values(watched).every(w => w.state !== 'pending'))
    cmpEvents(onEventLog, wantEv, 'onEvent event', 'onevent')
    for (const s of Object.keys(STREAMS)) {
      const c = collectors[s]
      let want = expectedItems[s]()
      if (b.cut[s] !== 9999) {
        if (c.state !== 'cancelled') ctx.diff('streams', `the cancelled ${s} stream ended as ${c.state}`)
        // what arrived before the cancellation
        if (s === 'event') { /* timing of events relative to other outputs is not fixed */ }
        else if (c.items.length > want.length || !c.items.every((x, i) => eq(x, want[i]))) ctx.diff(s, `cancelled ${s} stream delivered ${show(c.items)}, expected a prefix of ${show(want)}`)
        continue
      }
      if (failed) {
        if (c.state !== 'errored') ctx.diff('streams', `the ${s} stream ended as ${c.state}, expected an error`)
        else checkError(c.error, b.err, `the ${s} stream`)
      }
      else if (c.state !== 'closed') ctx.diff('streams', `the ${s} stream ended as ${c.state} ${show(c.error)}, expected closed`)
      if (s === 'event') cmpEvents(c.items, want, 'event', 'events', failed ? want.slice(0, surely[s]).filter(e => !(e.type === 'tool-call.delta' && !e.delta)).length : undefined)
      else if (failed ? c.items.length > want.length || c.items.length < surely[s] || !eq(c.items, want.slice(0, c.items.length)) : !eq(c.items, want)) ctx.diff(s, `${s} stream delivered ${show(c.items)}, expected ${show(want)}`)
    }
    for (const p of promiseNames) {
      const w = watched[p]
      if (failed) {
        if (w.state !== 'rejected') ctx.diff('promises', `promise ${p} is ${w.state}, expected rejected`)
        else checkError(w.error, b.err, `promise ${p}`)
      }
      else if (w.state !== 'resolved') ctx.diff('promises', `promise ${p} is ${w.state} ${show(w.error)}, expected resolved`)
    }
    if (!failed && promiseNames.every(p => watched[p].state === 'resolved')) {
      checkSteps(watched.steps.value, 'result steps')
      histDiff(watched[promiseNames[0]].value, b.msgs, `result ${promiseNames[0]}`)
      checkTotals(watched.usage.value, watched.totalUsage.value)
    }
  }
}
