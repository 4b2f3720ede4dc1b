#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the committed file is the output of this script).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

GT='packages/generate-text/src/index.ts'; ST='packages/stream-text/src/index.ts'
ET='packages/shared-chat/src/utils/execute-tool.ts'; RS='packages-ext/responses/src/utils/responses.ts'
TG='packages-ext/telemetry/src/wrapped/generate-text.ts'; TS='packages-ext/telemetry/src/wrapped/stream-text.ts'
SS='packages/shared-stream/src/json.ts'; SC='packages/shared-stream/src/controller.ts'

p('C01','The agent loop continues exactly while it should, one request per step',
 'A multi-step run (non-streaming chat, streaming chat, and the Responses API) evaluates the stop condition exactly once per completed model response, with the current history, the current step and all steps so far including the current one; without a stop condition it stops after the first step. It executes the tool calls and sends the next request if and only if the response contained at least one tool call, the stop condition answered no, and the run has not been aborted; otherwise it ends with no further request and, when stopped, with the tool calls handed over unexecuted. Exactly one request is sent per step, steps are recorded and reported to the step callback once each, in order, and the result describes the last step.',
 ['histories','inputs','schedules'],'for every sequence of model responses (with 0..n tool calls), stop-condition answers, tool outcomes and abort points',
 'The tests run one- or two-step conversations against canned responses; the continuation rule is a property of every history of responses, stop answers and tool completions.',
 [GT,ST,RS,'packages/shared-chat/src/utils/stop-when.ts'],
 [('loop continuation (willContinue / trampoline)',GT),('doStream continuation',ST),('doStream continuation',RS)],
 state=[('steps','completed steps of this run',GT),('messages/input','canonical conversation history',ST)],
 observe=['requests received by options.fetch','stopWhen calls','onStepFinish calls','returned steps'])
p('C02','The conversation sent and returned is exactly the causal history',
 'Request k of a run carries the caller\'s messages followed, for every earlier step in order, by that step\'s assistant message (its text, reasoning and tool calls as the model produced them) and one tool message per tool call with the matching id; the history in the result is that same sequence including the last step. Nothing is dropped, duplicated, reordered or replaced by holes. In chat runs every executed tool is given that history up to and including the message that called it. The caller\'s own message objects are never modified, and modifying them after the run started does not change what is sent or returned.',
 ['histories','inputs'],'for every conversation: any number of steps, tool calls per step, contents, and tool outcomes',
 'The tests look at the second request of a few fixed conversations; history integrity is over all step/tool-call combinations.',
 [GT,ST,RS,ET,TG,TS],
 [('messages.push of assistant and tool messages',GT),('assistant message assembly',ST),('input.push of output items',RS),('structuredClone of the caller input',GT)],
 observe=['bodies of requests seen by options.fetch','result messages / input','the caller\'s array before and after'])
p('C03','A tool call always yields exactly one well-formed result',
 'For a tool call with a name and arguments, the arguments are parsed (blank means an empty object), validated when the tool has a validator, and the tool is executed at most once, with exactly the parsed-and-validated value and the call\'s id; the result keeps the call\'s id and carries the tool\'s value (a string as is, an array consisting only of content parts as is, anything else as JSON). Every failure on the way (unknown tool, malformed JSON, validation issues, an exception from the validator or the tool, an abort) becomes an error result naming the tool for that call alone, never an exception of the run; after a failure before execution the tool is not executed. A call without a name or without arguments is rejected as an invalid tool call.',
 ['inputs','fault_sequences'],'for every combination of call shape, argument text, validator outcome, tool outcome and abort point',
 'The tests cover each stage once in isolation; the guarantee is over the product of stages and over arbitrary argument and result values.',
 [ET,'packages/shared-chat/src/utils/internal/to-tool-message-content.ts',RS],
 [('parseToolInput',ET),('catchToolError / createErrorToolResult',ET),('findTool',ET)],
 observe=['executeTool result','tool messages in the next request','toolResults of steps'])
p('C04','Tool hooks see and control the call, without changing its identity',
 'The pre-call hook is called exactly once per tool call before anything else; it may let the call through, rewrite it (the rewritten name and arguments are the ones looked up, parsed and executed), or answer it with a result, in which case the tool is not run and the post-call hook is not called. The post-call hook is called exactly once if and only if execution of the tool was reached, also when the tool failed, with the result and its parsed arguments, and may replace that result. An exception in a hook becomes an error result for that call; a replacement with a different call id is rejected as an invalid tool call.',
 ['inputs','fault_sequences'],'for every combination of hook behaviours, tool outcomes and abort points',
 'The tests check one hook behaviour at a time on a successful call; the interactions (rewrite then unknown tool, failure then post hook, ...) are not sampled.',
 [ET,GT,ST,RS,TG,TS],
 [('preToolCall / postToolCall stages',ET),('assertSameToolCallId',ET)],
 observe=['hook calls and their arguments','executed tools','tool results'])
p('C05','Parallel tool calls: all finish before the next step, results in call order',
 'The tool calls of one response are all started without waiting for each other, and the next request is sent only after every one of them has finished, whatever the order in which they finish. The results (in the step, in the events and in the history) are in the order of the calls, each attached to its own call id. A failing tool affects only its own result.',
 ['schedules','histories'],'for every completion order and outcome of the tool calls of a step, including several calls to the same tool',
 'Existing tests use tools that finish immediately and one call per step; no completion order is explored.',
 [GT,ST,RS,ET],[('Promise.all over executeTool',GT),('Promise.all over executeTool',ST),('Promise.all over executeFunctionCall',RS)],
 observe=['tool start/finish order','request times','toolResults, tool messages'])
p('C06','Step preparation affects only its own step',
 'Before every request the step-preparation hook is called once with the step number, the base model, the history so far and the earlier steps. The model, tool choice and input it returns are used for that step\'s request only: later steps start again from the configured model, tool choice and the true history, and results report the true history. Modifying the values it was given, or later modifying the input it returned, changes nothing; if it throws, the run fails with that error without sending the request.',
 ['histories','inputs'],'for every sequence of per-step overrides (none, model, tool choice, input, combinations, mutation, failure)',
 'One test applies one override; sequences of overrides and mutation attempts over several steps are not explored.',
 ['packages/shared-chat/src/utils/prepare-step.ts',GT,ST,RS],[('resolvePrepareStep',"packages/shared-chat/src/utils/prepare-step.ts")],
 observe=['prepareStep arguments','request bodies','result messages'])
p('C07','Usage is attributed to its own step and totals are exact sums',
 'The usage of a step is what the server reported for that step (the last report when several arrive, nothing when none arrives), in the step record, in the step-done event and in the result for the last step. The total usage of a run is, component by component, the sum of the usages of its steps; each step counts once.',
 ['histories','inputs'],'for every sequence of steps with present, absent or repeated usage reports',
 'Tests use single-step runs with one usage report; stale or double counting only shows over several steps or reports.',
 ['packages/shared-chat/src/utils/usage.ts',GT,ST,RS,TS],[('computeTotalUsage','packages/shared-chat/src/utils/usage.ts'),('pushUsage',ST),('pushUsage',RS)],
 observe=['step.usage','step.done events','result usage / totalUsage'])
p('C08','Streamed deltas are reassembled losslessly and delivered as they arrive',
 'In streaming chat the text stream, the reasoning stream and the full stream deliver every non-empty text/refusal delta, every non-empty reasoning delta and every chunk exactly once, in order and as soon as they arrive, and their concatenations are the step\'s text and reasoning. Tool-call fragments are assembled per index, whatever their interleaving, sparsity, or missing argument pieces, into calls with the id and name of the first fragment and the concatenated arguments, ordered by index. The assistant message recorded in the history and the step record agree with these, the finish reason being the last one reported.',
 ['inputs','histories'],'for every sequence of stream chunks and every split of the bytes',
 'The tests use a handful of recorded streams; interleavings of indexes, empty/missing fields, and mixed deltas are not covered.',
 [ST,TS],[('chunk write handler',ST)],
 state=[('tool_calls','fragments by index',ST),('text/reasoningText','accumulated text',ST)],
 observe=['textStream','reasoningTextStream','fullStream','steps','messages'])
p('C09','The event stream follows its grammar and matches the callback',
 'For every step of a streaming run the events are: one step start; then start, deltas and finally done for text and for reasoning (done carries the concatenation of the deltas; a start occurs exactly once and only if there is something to report), start and deltas per tool call; after the response is complete one tool-call done per call with its complete arguments; then one result event per executed call; and one step done as the last event of the step. Events of a step never interleave with those of another. The event callback receives exactly the same events in the same order as the event stream.',
 ['inputs','histories'],'for every chunk sequence and multi-step history, in streaming chat and the Responses API',
 'No stable test checks the event sequences across steps; the grammar is a property of all runs.',
 [ST,RS,'packages/shared-chat/src/types/event.ts'],[('pushEvent',ST),('mapFullEvent / pushEvents',RS)],
 observe=['eventStream','onEvent'])
p('C10','A streaming run always settles everything, once, with one outcome',
 'However a streaming chat or Responses run ends (normal end, request failure, HTTP error, broken body, malformed or error chunk, failing hook, callback or tool call shape), the finish callback is called exactly once with the last completed step, and afterwards either all output streams close and all result promises resolve, or all not yet finished streams and all result promises fail with that same error. Items delivered before a failure are kept and nothing is delivered after it. A failure that the user observes on only some of the outputs never surfaces as an unhandled rejection.',
 ['fault_sequences','histories'],'for every point of failure in every step',
 'Tests exercise successful streams; failure points across steps and outputs are not enumerated.',
 [ST,RS,SC,TS],[('final try/catch + closeControllers/errorControllers',ST),('final try/catch',RS)],
 observe=['all output streams','all result promises','onFinish','process unhandledRejection'])
p('C11','Output streams are independent of their consumers',
 'Each output stream of a streaming run can be read, read late, not read at all or cancelled at any moment without affecting the run: the other streams still deliver everything, the callbacks and result promises are the same, and tools still run. A cancelled stream receives nothing more and causes no error. An item is never lost because its stream is not being read yet.',
 ['schedules'],'for every choice and moment of cancelling or delaying each of the output streams',
 'No test cancels a stream of a run or leaves one unread while comparing the others.',
 [ST,RS,SC,TS],[('createControlledStream',SC)],
 observe=['textStream, reasoningTextStream, fullStream, eventStream','result promises'])
p('C12','Aborting stops the run promptly and never starts new work',
 'The caller\'s abort signal is handed to every request and every tool. After it fires: no further request is answered or processed, no tool call that has not started executing is executed (it yields an error result saying it was aborted), and no new step begins. A response that completes after the abort makes the run fail with the abort reason without running its tools; if the abort happens while tools run, the run ends normally after them with that step recorded (for a streamed response: once its body has been received completely).',
 ['schedules','fault_sequences'],'for every moment of aborting relative to requests, chunks, tool starts and completions, and steps',
 'One test aborts inside a tool; the moment of the abort relative to all other events is a schedule quantifier.',
 [GT,ST,RS,ET],[('abort checks',GT),('abort checks',ST),('abort check before execute',ET)],
 observe=['requests, tool executions after abort','result or error'])
p('C13','SSE decoding is independent of chunking and never hides an error',
 'A server-sent event stream is decoded to the same sequence of parsed messages however its bytes are split into chunks (inside multi-byte characters, line endings, fields) and whichever line ending, comments or other fields it uses; empty events and the end marker produce nothing. The first malformed message makes the stream fail with a JSON parse error carrying its text, the first message that is an object with an error member makes it fail with a remote API error carrying it, and every earlier message is still delivered; message text that merely mentions an error does not fail.',
 ['inputs'],'for every event stream and every partition of its bytes',
 'The tests feed whole messages to the transform; byte-level partitions and mixed streams are not explored.',
 [SS,ST,RS,'packages/stream-speech/src/index.ts','packages/stream-transcription/src/index.ts'],
 [('parseJsonSSEMessage / JsonMessageTransformStream',SS),('TextDecoderStream + EventSourceParserStream pipeline',ST)],
 observe=['fullStream of streamText/responses/streamTranscription','audio of streamSpeech'])
p('C14','Every endpoint classifies every response the same way',
 'For every endpoint: a network failure is passed on unchanged; a non-success status yields an API-call error carrying the status, the response and its full body text; a success without a body yields an empty-body error and one whose body is not a stream an invalid-body error; a JSON endpoint whose body is not JSON yields a JSON parse error carrying the text; a chat completion without choices yields a no-choices error. Anything else is a success: no failure is swallowed, no success is rejected, and exactly one request is made.',
 ['inputs','fault_sequences'],'for every endpoint, status code and body shape',
 'Tests check classification helpers on four cases and on generate-text only; not the product of endpoints and responses.',
 ['packages/shared/src/utils/response-catch.ts','packages/shared/src/utils/response-json.ts','packages/shared/src/error/index.ts',GT,'packages/model/src/utils/list-models.ts','packages/generate-transcription/src/index.ts','packages/generate-image/src/index.ts'],
 [('responseCatch','packages/shared/src/utils/response-catch.ts'),('responseJSON','packages/shared/src/utils/response-json.ts')],
 observe=['rejections/streams/promises of each endpoint'])
p('C15','Requests carry exactly what was configured, and no secret in the body',
 'Every endpoint sends to the endpoint\'s path under the base URL (with or without trailing slash, string or URL object), through the supplied fetch, with the abort signal, with a bearer authorization exactly when an API key is given, and with the caller\'s headers taking precedence. The body contains every other defined option under its snake_case name with its value unchanged (null, false, 0 and empty kept, undefined dropped), and never the API key, headers, base URL, fetch, signal, or any client-side option or callback; tools are sent without their local functions. Per-call options of one call never show up in another.',
 ['configurations','inputs'],'for every endpoint and every combination of options',
 'Tests assert a few bodies; combinations of options, header kinds and URL shapes are not covered.',
 ['packages/shared/src/utils/post-json.ts','packages/shared/src/utils/request-body.ts','packages/shared/src/utils/request-headers.ts','packages/shared/src/utils/request-url.ts','packages/shared/src/utils/case.ts','packages/shared-chat/src/utils/chat.ts'],
 [('postJSON','packages/shared/src/utils/post-json.ts'),('chat option stripping','packages/shared-chat/src/utils/chat.ts')],
 observe=['arguments of options.fetch'])
p('C16','The retrying fetch retries exactly the retryable answers, boundedly',
 'The retrying fetch repeats a request while the answer has one of the configured retryable statuses (default 408, 409, 425, 429, 500, 502, 503, 504) and retries remain (default 3), waiting the configured delay (default 500 ms) before each retry; it returns the first other answer, or the last one when retries are used up. Every attempt carries the same request, including its body; a network failure is passed on at once. Calls made through the same fetch do not affect each other.',
 ['fault_sequences','configurations'],'for every sequence of answers and every retry configuration, with concurrent calls',
 'There is no stable test of the retry policy.',
 ['packages-top/xsfetch/src/index.ts'],[('xsfetch recursion','packages-top/xsfetch/src/index.ts')],
 observe=['calls of the underlying fetch','waits','returned response'])
p('C17','Reasoning extraction separates the same text whatever the chunking',
 'Streaming reasoning extraction routes every character outside the tags exactly once, in order, to the reasoning stream if it lies between the opening and closing tag and to the text stream otherwise, with the separator between successive blocks of the same kind; tags are never emitted, text that merely resembles the beginning of a tag is, and an unfinished rest is flushed at the end. The result does not depend on how the input is split into chunks, and equals the non-streaming extraction whenever all blocks are closed, up to the separators next to empty blocks. An input error fails both streams.',
 ['inputs'],'for every text, tag name, separator, start mode and chunking',
 'The tests use one model\'s outputs with a few chunkings.',
 ['packages/utils-reasoning/src/extract-reasoning-stream.ts','packages/utils-reasoning/src/extract-reasoning.ts','packages/utils-reasoning/src/_get-partial-match-index.ts'],
 [('buffer/partial match scan','packages/utils-reasoning/src/extract-reasoning-stream.ts')],
 observe=['reasoningStream, textStream'])
p('C18','Stream smoothing and simulation preserve content, order and pacing',
 'Smoothing a text stream never loses, duplicates or reorders characters: the concatenation of its output is that of its input, each output piece ends at a boundary of the chosen chunking (word, line or custom pattern) except the final rest, and pieces are spaced by the delay. A simulated stream delivers its chunks in order, the first after the initial delay and the others after the chunk delay, and then closes.',
 ['inputs','schedules'],'for every text, chunking pattern, input split and delay',
 'There are no stable tests of smoothing.',
 ['packages/utils-stream/src/smooth-stream.ts','packages/utils-stream/src/simulate-readable-stream.ts'],
 [('smoothStream transform','packages/utils-stream/src/smooth-stream.ts'),('simulateReadableStream','packages/utils-stream/src/simulate-readable-stream.ts')],
 observe=['output chunks and their times'])
p('C19','Streamed objects: every element once and complete; snapshots converge',
 'When an array is streamed whose answer is complete JSON, each element is delivered exactly once, in order, only when complete, no later than when the response ends, and earlier as soon as its successor has begun; an empty array delivers nothing. When an object is streamed, each delivered snapshot is a partial version of the final object that contains everything which has arrived completely, differs from its predecessor, and the last one is the final object. The outcome does not depend on how the text is split into deltas; the text stream stays complete, and an empty response fails.',
 ['inputs'],'for every JSON value and every split of its text into deltas',
 'The stable test covers only an empty response.',
 ['packages/stream-object/src/utils/to-element-stream.ts','packages/stream-object/src/utils/to-partial-object-stream.ts','packages/stream-object/src/utils/stream-object.ts'],
 [('toElementStream','packages/stream-object/src/utils/to-element-stream.ts'),('toPartialObjectStream','packages/stream-object/src/utils/to-partial-object-stream.ts')],
 observe=['elementStream, partialObjectStream, textStream'])
p('C20','Structured generation returns only schema-valid values and asks for them',
 'Structured generation (object or array output, streaming or not) sends the schema as the response format with the given name, description and strictness, in strict mode with every object level reachable through object properties (and the wrapper of arrays) closed against additional properties and with every local reference in the schema reaching what it referred to, and sends none of its own options otherwise. The returned value is the schema\'s validated output of the JSON in the answer (for arrays: of each element, in order); an empty answer, a non-JSON answer or a value the schema rejects makes the call fail rather than return. The other result fields are those of the underlying text generation.',
 ['inputs','configurations'],'for every schema shape, output mode, strictness and answer text',
 'Two stable tests check two failing answers.',
 ['packages/generate-object/src/index.ts','packages/generate-object/src/_wrap.ts','packages/stream-object/src/utils/stream-object.ts','packages-top/xsschema/src/validate.ts'],
 [('validate','packages-top/xsschema/src/validate.ts'),('wrap','packages/generate-object/src/_wrap.ts')],
 observe=['request response_format','result.object or rejection'])
p('C21','Responses API items, events and outputs correspond one to one',
 'In a Responses run every server event appears once and in order in the full stream; text and refusal deltas, reasoning and reasoning-summary deltas, function-call starts, argument deltas and completions, response creation and completion map to the corresponding text, reasoning and event streams; a server error event fails the run. Every completed output item is appended once, in order, to the input of the next request, and every executed function call is followed by one output item carrying its call id and its tool\'s result. A completed response ends the step as stop or tool-calls, a failed one as error, an incomplete one as length, the latter two without running tools or sending another request.',
 ['inputs','histories'],'for every sequence of Responses server events over several steps',
 'The responses tests need a server and are not run.',
 [RS,'packages-ext/responses/src/utils/normalize-output.ts','packages-ext/responses/src/utils/normalize-input.ts','packages-ext/responses/src/utils/normalize-tool.ts'],
 [('mapFullEvent / pushStreamingEvent',RS),('handleOutputItemDone',RS)],
 observe=['fullStream, textStream, reasoningTextStream, eventStream','request bodies','steps, input'])
p('C22','Telemetry does not change behaviour',
 'The instrumented text generation, text streaming and embedding functions make the same requests, run the same validations, tool executions and hooks, and produce the same results, streams, callbacks and failures as the plain ones for the same options and server behaviour. The caller\'s options and tools are not modified and the telemetry options are not sent to the server.',
 ['histories','fault_sequences'],'for every run of the plain functions',
 'The telemetry tests need a model server and are not run.',
 [TG,TS,'packages-ext/telemetry/src/wrapped/embed.ts','packages-ext/telemetry/src/utils/wrap-tool.ts'],
 [('instrumented copies of the loops',TG),('wrapTool','packages-ext/telemetry/src/utils/wrap-tool.ts')],
 observe=['requests, results, streams of instrumented functions'])
p('C23','Telemetry spans: one per operation, ended exactly once, truthful',
 'Every step of an instrumented chat run and every embedding call is covered by exactly one span, and every execution of a tool by exactly one span naming the tool and its call id; each is ended exactly once, after its operation finished, also on failure. Tool spans are nested in the span of their step. A failed operation\'s span records the exception and has error status and a successful one has not. Request and response attributes (model, request parameters, usage, finish reason) are those of that operation, including user metadata.',
 ['histories','fault_sequences'],'for every run, every tool schedule and every failure point',
 'The telemetry tests need a model server and are not run.',
 ['packages-ext/telemetry/src/utils/record-span.ts','packages-ext/telemetry/src/utils/record-span-options.ts',TG,TS,'packages-ext/telemetry/src/wrapped/embed.ts','packages-ext/telemetry/src/utils/wrap-tool.ts'],
 [('recordSpan','packages-ext/telemetry/src/utils/record-span.ts')],
 observe=['spans seen by a registered OpenTelemetry tracer provider'])
p('C24','Provider handles are independent values carrying the right configuration',
 'Every handle a provider returns for a capability and model carries that provider\'s base URL, credentials and headers and that model (plus the extra options given), and keeps them unchanged whatever is requested from the same or any other provider afterwards; extra options of one call do not leak into another. Special providers transform requests only as documented: the deployment address, version and token of Azure, the routing, transforms and attribution headers of OpenRouter, the thinking options of Anthropic, the speech endpoint of Player2. Model-listing adapters and the Player2 adapter pass server errors through. The ready-made instances use the documented base address and credential variable of their provider.',
 ['histories','configurations'],'for every sequence of handle requests across providers and capabilities',
 'One stable test checks one provider\'s handle.',
 ['packages-ext/providers/src/utils/create.ts','packages-ext/providers/src/utils/merge.ts','packages-ext/providers/src/generated/create.ts','packages-ext/providers/src/manual/providers/openrouter.ts','packages-ext/providers/src/special/providers/azure.ts','packages-ext/providers/src/special/providers/player2.ts','packages-ext/providers/src/manual/providers/featherless.ts','packages-ext/providers/src/manual/providers/together-ai.ts','packages-ext/providers/src/manual/providers/anthropic.ts'],
 [('create*Provider','packages-ext/providers/src/utils/create.ts')],
 observe=['returned option objects','requests of the special fetches'])
p('C25','Streaming speech and transcription deliver everything and settle once',
 'Streamed speech delivers exactly the decoded bytes of the audio deltas in order, and, once the audio is read, its usage promise settles exactly once: to the reported usage, to nothing if none is reported, or to the failure of the stream. Streamed transcription delivers every text delta exactly once and in order on both streams and resolves the full text to their concatenation; on any failure both streams and the text fail with that error and without an unhandled rejection. Cancelling one transcription stream does not affect the other outputs.',
 ['inputs','fault_sequences','schedules'],'for every event sequence, byte split, failure point and cancellation',
 'The tests of these packages need a server and are not run.',
 ['packages/stream-speech/src/index.ts','packages/stream-transcription/src/index.ts'],
 [('usage promise','packages/stream-speech/src/index.ts'),('doStream + final settle','packages/stream-transcription/src/index.ts')],
 observe=['fullStream, textStream, text, usage'])
p('C26','Generated images come back complete and in order',
 'Image generation returns one image per item of the answer, in the answer\'s order whatever the order in which linked images finish downloading, each as a data URL with the matching MIME type and its bytes unchanged; the first image is also returned separately. Linked images are fetched through the supplied fetch with the abort signal and without the API credentials. A missing image, a failed download or an HTTP error fails the call.',
 ['schedules','inputs','fault_sequences'],'for every mix of inline and linked images, download order and failure',
 'There are no stable tests of image generation.',
 ['packages/generate-image/src/index.ts'],[('Promise.all over data','packages/generate-image/src/index.ts'),('convertImage','packages/generate-image/src/index.ts')],
 observe=['result images','requests'])
p('C27','Embeddings, models, speech and transcription map answers faithfully',
 'Embedding returns the vectors of the answer in order together with the given input and the reported usage; model listing and retrieval return the server\'s data unchanged; speech returns the exact bytes of the answer; transcription returns the answer unchanged and sends the file with its name, the model and every given option as form fields, requesting the verbose granularity only when asked for; the streaming variants send the same settings with streaming asked for. Calls running concurrently never see each other\'s data.',
 ['inputs','schedules'],'for every answer, option combination and interleaving of concurrent calls',
 'The tests of these packages need a server and are not run.',
 ['packages/embed/src/utils/embed.ts','packages/embed/src/utils/embed-many.ts','packages/model/src/utils/list-models.ts','packages/model/src/utils/retrieve-model.ts','packages/generate-speech/src/index.ts','packages/generate-transcription/src/index.ts'],
 [('result mapping','packages/embed/src/utils/embed-many.ts'),('form construction','packages/generate-transcription/src/index.ts')],
 observe=['results','request URL, headers, form fields'])
p('C28','Strict schemas close every reachable object; tools keep what was defined',
 'Making a schema strict sets additionalProperties to false on it and on every object reachable through object properties at any depth, keeps everything else (other keywords, property order, non-object properties) and does not modify its argument. A tool built from a schema carries the name, description and strictness given, its (strict unless disabled) parameter schema, the given function, and a validator that accepts exactly what the schema accepts and yields the schema\'s output.',
 ['inputs'],'for every schema tree and tool definition',
 'The tests check two schema trees and two tools.',
 ['packages-top/xsschema/src/json-schema.ts','packages/tool/src/utils/tool.ts','packages/tool/src/utils/define-tool.ts','packages/tool/src/utils/raw-tool.ts'],
 [('strictJsonSchema','packages-top/xsschema/src/json-schema.ts')],
 observe=['returned schema/tool','the argument afterwards'])
p('C29','Stop conditions compose as boolean algebra over the step history',
 'A step-count condition holds exactly when at least that many steps (including the current one) have completed; a tool-call condition exactly when the current step contains a call (to that tool, if named); and, or and not combine conditions as boolean connectives for any nesting and number of operands. Evaluating a condition does not change it or its context, and the same condition can be reused across steps and runs.',
 ['inputs','histories'],'for every condition expression and every history of steps',
 'The tests check one expression of each kind.',
 ['packages/shared-chat/src/utils/stop-when.ts'],[('and/or/not/stepCountAtLeast/hasToolCall','packages/shared-chat/src/utils/stop-when.ts')],
 observe=['condition values','the step at which a run stops'])
p('C30','A schema means the same in every library, to the model and to validation',
 'Whatever supported library a schema is written in (arktype, effect, sury, valibot, zod 3, zod 4 and zod mini), the JSON Schema made from it is a draft-07 schema that accepts exactly the inputs which the schema itself accepts: optional and defaulted properties may be absent, nullable values may be null, converted values have the type of their input. A schema that brings its own conversion is converted by it, for its input; a schema of an unknown library is refused by name. Validation, synchronous or not, returns exactly the schema\'s output (also a null, false or empty one) and fails with the issues otherwise, without modifying its argument. A tool built from the schema has that JSON Schema (strict unless disabled) and that validation.',
 ['inputs'],'for every type expressible in the libraries and every value',
 'The tests convert one schema per library and compare it with a snapshot; what it accepts is never checked.',
 ['packages-top/xsschema/src/to-json-schema/index.ts','packages-top/xsschema/src/to-json-schema/vendors/index.ts','packages-top/xsschema/src/to-json-schema/vendors/zod.ts','packages-top/xsschema/src/validate.ts','packages/tool/src/utils/tool.ts'],
 [('toJsonSchema','packages-top/xsschema/src/to-json-schema/index.ts'),('validate','packages-top/xsschema/src/validate.ts')],
 observe=['converted schema, evaluated','validated value or issues','tool parameters and validator'])
p('C31','Message helpers say what they were given, and it reaches the server',
 'The message helpers build messages of the role they are named after with exactly the content given: an assistant message made of one tool call or of a list consisting of tool calls only carries them as its tool calls, anything else (text, parts, lists that contain anything but complete tool calls) is its content; a tool message carries the id of the call it answers. Contents are not modified, and a conversation built with them is sent as it was written.',
 ['inputs'],'for every content and every conversation',
 'The tests build one message of each kind.',
 ['packages/utils-chat/src/message.ts'],[('assistant / isToolCall','packages/utils-chat/src/message.ts')],
 observe=['built messages','request body'])
p('C32','Runs in progress at once are independent',
 'Any number of runs and calls may be in progress in one process at once, of the same function or of different ones, and in any interleaving of what their servers, tools, hooks, consumers and abort controllers do: each behaves exactly as it would alone. Nothing of one run (text, reasoning, usage, tool calls, history, step overrides, stop decisions, abort, failure, telemetry span) shows up in, delays for good, aborts or fails another, and a run that has ended leaves nothing behind that changes a later one.',
 ['schedules','histories'],'for every pair of behaviours of two runs and every interleaving of them',
 'The tests run one call at a time.',
 ['packages/generate-text/src/index.ts','packages/stream-text/src/index.ts','packages-ext/responses/src/utils/responses.ts','packages-ext/telemetry/src/utils/record-span.ts','packages/shared-stream/src/json.ts','packages/shared-chat/src/utils/execute-tool.ts'],
 [('streamText','packages/stream-text/src/index.ts'),('generateText','packages/generate-text/src/index.ts'),('responses','packages-ext/responses/src/utils/responses.ts'),('recordSpan','packages-ext/telemetry/src/utils/record-span.ts')],
 observe=['everything observable of either run'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
