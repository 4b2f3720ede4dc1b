// A real OpenTelemetry provider whose spans are observed: every start, every end (also a second one), attributes,
// status, exceptions and parent.
import { trace } from 'dep:packages-ext/telemetry:@opentelemetry/api'
import { NodeTracerProvider } from 'dep:packages-ext/telemetry:@opentelemetry/sdk-trace-node'

let spans = []
let clock = 0
let installed = false

export const installTracing = () => {
  if (installed) return
  installed = true
  const provider = new NodeTracerProvider({
    spanProcessors: [{
      forceFlush: async () => {},
      onEnd: () => {},
      onStart: (span) => {
        const rec = { ends: 0, id: span.spanContext().spanId, name: span.name, parent: span.parentSpanContext?.spanId ?? span.parentSpanId, span, startedAt: ++clock, trace: span.spanContext().traceId }
        const end = span.end
        span.end = (...a) => { rec.ends++; rec.endedAt ??= ++clock; return end.apply(span, a) }
        spans.push(rec)
      },
      shutdown: async () => {},
    }],
  })
  provider.register()
}
/** spans started since the last reset, without those of the harness */
export const allSpans = () => spans
export const resetSpans = () => { spans = [] }
export const attrs = rec => rec.span.attributes
export const failedSpan = rec => rec.span.status.code === 2
export const exceptions = rec => rec.span.events.filter(e => e.name === 'exception').map(e => e.attributes)
/** runs f inside a span of the caller */
export const inSpan = (f) => trace.getTracer('caller').startActiveSpan('caller', (span) => { const rec = spans.at(-1); rec.own = true; try { return [f(), rec] } finally { span.end() } })
