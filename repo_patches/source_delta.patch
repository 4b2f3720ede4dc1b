From 470e4fd13547a96be98b7936a90e876fb74a17ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 01/31] fix: keep streamed tool call arguments intact when a
 fragment has none

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 5 +++--
 packages/stream-text/src/index.ts                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index e644ca8..a19ea83 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -197,8 +197,9 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
                     pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
                 }
                 else {
-                  tool_calls[index].function.arguments! += toolCall.function.arguments
-                  pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                  tool_calls[index].function.arguments! += toolCall.function.arguments ?? ''
+                  if (toolCall.function.arguments != null)
+                    pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
                 }
               }
             }
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 91e992e..1637811 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -220,8 +220,9 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
                   pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
               }
               else {
-                tool_calls[index].function.arguments! += toolCall.function.arguments
-                pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                tool_calls[index].function.arguments! += toolCall.function.arguments ?? ''
+                if (toolCall.function.arguments != null)
+                  pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
               }
             }
           }
-- 
2.43.0


From 74caf6e818ed17e87cf2340ee79ac38410e62d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 02/31] fix: do not drop streamed text that arrives together
 with tool calls

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 6 ++++--
 packages/stream-text/src/index.ts                 | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index a19ea83..1384969 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -157,7 +157,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
             if (choice.finish_reason != null)
               finishReason = choice.finish_reason
 
-            if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null) {
+            // an empty content next to tool calls carries no text
+            if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null || choice.delta.content) {
               if (choice.delta.content != null) {
                 if (!textStarted) {
                   textStarted = true
@@ -175,7 +176,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
                 pushText(choice.delta.refusal)
               }
             }
-            else {
+
+            if (choice.delta.tool_calls != null) {
             // https://platform.openai.com/docs/guides/function-calling?api-mode=chat&lang=javascript#streaming
               for (const toolCall of choice.delta.tool_calls) {
                 const { index } = toolCall
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 1637811..3aa2966 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -184,7 +184,8 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
           if (choice.finish_reason != null)
             finishReason = choice.finish_reason
 
-          if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null) {
+          // an empty content next to tool calls carries no text
+          if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null || choice.delta.content) {
             if (choice.delta.content != null) {
               if (!textStarted) {
                 textStarted = true
@@ -202,7 +203,8 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
               pushText(choice.delta.refusal)
             }
           }
-          else {
+
+          if (choice.delta.tool_calls != null) {
             // https://platform.openai.com/docs/guides/function-calling?api-mode=chat&lang=javascript#streaming
             for (const toolCall of choice.delta.tool_calls) {
               const { index } = toolCall
-- 
2.43.0


From 23a115599f93e78d094e5723f89a30da91213433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 03/31] fix: leave no holes in the assistant message for sparse
 tool call indexes

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 5 +++--
 packages/stream-text/src/index.ts                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 1384969..64a67de 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -213,16 +213,17 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       if (textStarted)
         pushEvent({ content: text, type: 'text.done' })
 
+      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
+
       const message: AssistantMessage = {
         ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
         content: text,
         role: 'assistant',
-        tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+        tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
       }
       messages.push(message)
       span.setAttribute('gen_ai.output.messages', JSON.stringify([message]))
 
-      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
       const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
       const toolResults: CompletionToolResult[] = []
 
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 3aa2966..ebcfc95 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -236,14 +236,15 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     if (textStarted)
       pushEvent({ content: text, type: 'text.done' })
 
+    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
+
     messages.push({
       ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
       content: text,
       role: 'assistant',
-      tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+      tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
     })
 
-    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
     const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
     const toolResults: CompletionToolResult[] = []
 
-- 
2.43.0


From dc1358b4c7f73a263741967cf8b9c082b8f86771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 04/31] fix: attribute usage to its own step and count each
 step once

---
 packages-ext/responses/src/utils/responses.ts     | 7 +++----
 packages-ext/telemetry/src/wrapped/stream-text.ts | 5 ++++-
 packages/stream-text/src/index.ts                 | 5 ++++-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 0cdfbb5..ee27903 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -83,11 +83,10 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   const pushUsage = (nextUsage?: NonNullable<ResponseResource['usage']>) => {
-    if (nextUsage == null)
-      return
+    usage = nextUsage != null ? normalizeUsage(nextUsage) : undefined
 
-    usage = normalizeUsage(nextUsage)
-    totalUsage = computeTotalUsage(totalUsage, usage)
+    if (usage != null)
+      totalUsage = computeTotalUsage(totalUsage, usage)
   }
 
   const pushResponseStep = (response: ResponseResource, stepOptions: {
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 64a67de..2196e2c 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -46,6 +46,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
 
   const pushStep = (step: CompletionStep) => {
     steps.push(step)
+    if (step.usage != null)
+      totalUsage = computeTotalUsage(totalUsage, step.usage)
 
     void options.onStepFinish?.(step)
   }
@@ -55,6 +57,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
     : undefined
 
   const doStream = async () => {
+    usage = undefined
+
     const stepOptions = await resolvePrepareStep({
       input: messages,
       model: options.model,
@@ -88,7 +92,6 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
           return
 
         usage = normalizeChatCompletionUsage(u)
-        totalUsage = computeTotalUsage(totalUsage, usage)
       }
 
       let text = ''
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index ebcfc95..7922e6c 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -85,11 +85,15 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
 
   const pushStep = (step: CompletionStep) => {
     steps.push(step)
+    if (step.usage != null)
+      totalUsage = computeTotalUsage(totalUsage, step.usage)
 
     void options.onStepFinish?.(step)
   }
 
   const doStream = async () => {
+    usage = undefined
+
     const stepOptions = await resolvePrepareStep({
       input: messages,
       model: options.model,
@@ -115,7 +119,6 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
         return
 
       usage = normalizeChatCompletionUsage(u)
-      totalUsage = computeTotalUsage(totalUsage, usage)
     }
 
     let text = ''
-- 
2.43.0


From daa76c80e915bd4a6a22e47ec7302e6a165ab6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 05/31] fix: report a chat completion without choices as such
 even without usage

---
 packages-ext/telemetry/src/wrapped/generate-text.ts | 5 +++--
 packages/generate-text/src/index.ts                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index 5777e0a..191cc0c 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -49,8 +49,6 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
         .then(responseJSON<GenerateTextResponse>)
         .then(async (res) => {
           const { choices } = res
-          const usage = normalizeChatCompletionUsage(res.usage)
-          const totalUsage = computeTotalUsage(options.totalUsage, usage)
 
           if (!choices?.length) {
             const responseBody = JSON.stringify(res)
@@ -60,6 +58,9 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
             })
           }
 
+          const usage = normalizeChatCompletionUsage(res.usage)
+          const totalUsage = computeTotalUsage(options.totalUsage, usage)
+
           const { finish_reason: finishReason, message } = choices[0]
           const msgToolCalls: ToolCall[] = message?.tool_calls ?? []
           const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
diff --git a/packages/generate-text/src/index.ts b/packages/generate-text/src/index.ts
index 87d39d9..99784dd 100644
--- a/packages/generate-text/src/index.ts
+++ b/packages/generate-text/src/index.ts
@@ -87,8 +87,6 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
     .then(responseJSON<GenerateTextResponse>)
     .then(async (res) => {
       const { choices } = res
-      const usage = normalizeChatCompletionUsage(res.usage)
-      const totalUsage = computeTotalUsage(options.totalUsage, usage)
 
       if (!choices?.length) {
         const responseBody = JSON.stringify(res)
@@ -98,6 +96,9 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
         })
       }
 
+      const usage = normalizeChatCompletionUsage(res.usage)
+      const totalUsage = computeTotalUsage(options.totalUsage, usage)
+
       const { finish_reason: finishReason, message } = choices[0]
       const msgToolCalls = message?.tool_calls ?? []
       const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
-- 
2.43.0


From 0c41566004d3296833eacc359f1f426765d8bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 06/31] fix: never raise an unhandled rejection for result
 promises nobody looks at

---
 packages-ext/responses/src/utils/responses.ts     | 6 ++++++
 packages-ext/telemetry/src/wrapped/stream-text.ts | 6 ++++++
 packages/stream-text/src/index.ts                 | 6 ++++++
 packages/stream-transcription/src/index.ts        | 2 ++
 4 files changed, 20 insertions(+)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index ee27903..bc686d3 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -378,6 +378,12 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
     if (finalError != null) {
       errorControllers(finalError, fullCtrl, textCtrl, reasoningTextCtrl, eventCtrl)
 
+      // a failure observed on some of the outputs is not unhandled on the others
+      resultInput.promise.catch(() => {})
+      resultSteps.promise.catch(() => {})
+      resultUsage.promise.catch(() => {})
+      resultTotalUsage.promise.catch(() => {})
+
       resultInput.reject(finalError)
       resultSteps.reject(finalError)
       resultUsage.reject(finalError)
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 2196e2c..6fe8823 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -310,6 +310,12 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
     if (finalError != null) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
+      // a failure observed on some of the outputs is not unhandled on the others
+      resultSteps.promise.catch(() => {})
+      resultMessages.promise.catch(() => {})
+      resultUsage.promise.catch(() => {})
+      resultTotalUsage.promise.catch(() => {})
+
       resultSteps.reject(finalError)
       resultMessages.reject(finalError)
       resultUsage.reject(finalError)
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 7922e6c..90def9e 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -323,6 +323,12 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     if (finalError != null) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
+      // a failure observed on some of the outputs is not unhandled on the others
+      resultSteps.promise.catch(() => {})
+      resultMessages.promise.catch(() => {})
+      resultUsage.promise.catch(() => {})
+      resultTotalUsage.promise.catch(() => {})
+
       resultSteps.reject(finalError)
       resultMessages.reject(finalError)
       resultUsage.reject(finalError)
diff --git a/packages/stream-transcription/src/index.ts b/packages/stream-transcription/src/index.ts
index 508925d..801b318 100644
--- a/packages/stream-transcription/src/index.ts
+++ b/packages/stream-transcription/src/index.ts
@@ -95,6 +95,8 @@ export const streamTranscription = (options: WithUnknown<StreamTranscriptionOpti
     }
     catch (err) {
       errorControllers(err, fullStreamCtrl, textStreamCtrl)
+      // a failure observed on the streams is not unhandled on the text
+      fullText.promise.catch(() => {})
       fullText.reject(err)
     }
   })()
-- 
2.43.0


From cb16ffc6453a88a54f8fd09b9feebe7ece828cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 07/31] fix: settle the usage of streamed speech when the
 stream fails or is cancelled

---
 packages/stream-speech/src/index.ts | 85 +++++++++++++++++------------
 1 file changed, 49 insertions(+), 36 deletions(-)

diff --git a/packages/stream-speech/src/index.ts b/packages/stream-speech/src/index.ts
index 807dd1e..4eb4cc8 100644
--- a/packages/stream-speech/src/index.ts
+++ b/packages/stream-speech/src/index.ts
@@ -56,46 +56,59 @@ export const streamSpeech = async (options: WithUnknown<StreamSpeechOptions>): P
     streamFormat: 'sse',
   })
 
-  const fullStream = response.body!
+  const { readable: fullStream, writable } = new TransformStream<StreamSpeechEvent, Uint8Array>({
+    flush: () => {
+      if (usageResolved)
+        return
+
+      usageResolved = true
+      usage.resolve(undefined)
+    },
+    transform: (chunk, controller) => {
+      try {
+        switch (chunk.type) {
+          case 'speech.audio.delta':
+            controller.enqueue(Uint8Array.fromBase64(chunk.audio))
+            break
+          case 'speech.audio.done':
+            if (chunk.usage != null) {
+              usage.resolve({
+                inputTokens: chunk.usage.input_tokens,
+                outputTokens: chunk.usage.output_tokens,
+                totalTokens: chunk.usage.total_tokens,
+              })
+              usageResolved = true
+            }
+            break
+        }
+      }
+      catch (error) {
+        if (!usageResolved) {
+          usageResolved = true
+          usage.reject(error)
+        }
+
+        throw error
+      }
+    },
+  })
+
+  // a failure observed on the stream is not unhandled on the usage
+  usage.promise.catch(() => {})
+
+  void response.body!
     .pipeThrough(new TextDecoderStream())
     .pipeThrough(new EventSourceParserStream())
     .pipeThrough(new JsonMessageTransformStream<StreamSpeechEvent>())
-    .pipeThrough(new TransformStream<StreamSpeechEvent, Uint8Array>({
-      flush: () => {
-        if (usageResolved)
-          return
+    .pipeTo(writable)
+    // the stream failed or was cancelled
+    .catch((error) => {
+      if (usageResolved)
+        return
 
-        usageResolved = true
-        usage.resolve(undefined)
-      },
-      transform: (chunk, controller) => {
-        try {
-          switch (chunk.type) {
-            case 'speech.audio.delta':
-              controller.enqueue(Uint8Array.fromBase64(chunk.audio))
-              break
-            case 'speech.audio.done':
-              if (chunk.usage != null) {
-                usage.resolve({
-                  inputTokens: chunk.usage.input_tokens,
-                  outputTokens: chunk.usage.output_tokens,
-                  totalTokens: chunk.usage.total_tokens,
-                })
-                usageResolved = true
-              }
-              break
-          }
-        }
-        catch (error) {
-          if (!usageResolved) {
-            usageResolved = true
-            usage.reject(error)
-          }
-
-          throw error
-        }
-      },
-    }))
+      usageResolved = true
+      usage.reject(error)
+    })
 
   return {
     fullStream,
-- 
2.43.0


From df740f8cb8a15d8c1d035f9156f086167a250a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 08/31] fix: keep tool validation and tool hooks with telemetry

---
 packages-ext/telemetry/src/utils/wrap-tool.ts       | 3 +--
 packages-ext/telemetry/src/wrapped/generate-text.ts | 2 ++
 packages-ext/telemetry/src/wrapped/stream-text.ts   | 2 ++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 37d2c4d..9d5b183 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -4,6 +4,7 @@ import type { Tool, ToolExecuteOptions } from 'xsai'
 import { recordSpan } from './record-span'
 
 export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
+  ...tool,
   execute: async (input: unknown, options: ToolExecuteOptions) =>
     recordSpan({
       attributes: {
@@ -20,6 +21,4 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
       span.setAttribute('gen_ai.tool.call.result', JSON.stringify(result))
       return result
     }),
-  function: tool.function,
-  type: tool.type,
 })
diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index 191cc0c..d2f0d94 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -95,6 +95,8 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
               msgToolCalls.map(async toolCall => executeTool({
                 abortSignal: options.abortSignal,
                 messages,
+                postToolCall: options.postToolCall,
+                preToolCall: options.preToolCall,
                 toolCall,
                 tools: options.tools,
               })),
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 6fe8823..d2f36a2 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -254,6 +254,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
           validToolCalls.map(async toolCall => executeTool({
             abortSignal: options.abortSignal,
             messages,
+            postToolCall: options.postToolCall,
+            preToolCall: options.preToolCall,
             toolCall,
             tools,
           })),
-- 
2.43.0


From 332c3af70babf33436669c6309fb04b2a256f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 09/31] fix: return independent options from providers

---
 packages-ext/providers/src/utils/create.ts | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/packages-ext/providers/src/utils/create.ts b/packages-ext/providers/src/utils/create.ts
index fd068b1..ca07480 100644
--- a/packages-ext/providers/src/utils/create.ts
+++ b/packages-ext/providers/src/utils/create.ts
@@ -1,45 +1,45 @@
 import type { ChatProvider, ChatProviderWithExtraOptions, CreateProviderOptions, EmbedProvider, EmbedProviderWithExtraOptions, ImageProvider, ModelProvider, ModelProviderWithExtraOptions, SpeechProvider, SpeechProviderWithExtraOptions, TranscriptionProvider, TranscriptionProviderWithExtraOptions } from './types'
 
 export const createChatProvider = <T extends string = string>(options: CreateProviderOptions): ChatProvider<T> => ({
-  chat: model => Object.assign(options, { model }),
+  chat: model => Object.assign({}, options, { model }),
 })
 
 export const createChatProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): ChatProviderWithExtraOptions<T, T2> => ({
-  chat: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  chat: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createEmbedProvider = <T extends string = string>(options: CreateProviderOptions): EmbedProvider<T> => ({
-  embed: model => Object.assign(options, { model }),
+  embed: model => Object.assign({}, options, { model }),
 })
 
 export const createEmbedProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): EmbedProviderWithExtraOptions<T, T2> => ({
-  embed: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  embed: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createImageProvider = <T extends string = string>(options: CreateProviderOptions): ImageProvider<T> => ({
-  image: model => Object.assign(options, { model }),
+  image: model => Object.assign({}, options, { model }),
 })
 
 export const createModelProvider = (options: CreateProviderOptions): ModelProvider => ({
-  model: () => options,
+  model: () => ({ ...options }),
 })
 
 export const createModelProviderWithExtraOptions = <T = undefined>(options: Omit<CreateProviderOptions, 'model'>): ModelProviderWithExtraOptions<T> => ({
-  model: extraOptions => Object.assign(options, extraOptions),
+  model: extraOptions => Object.assign({}, options, extraOptions),
 })
 
 export const createSpeechProvider = <T extends string = string>(options: CreateProviderOptions): SpeechProvider<T> => ({
-  speech: model => Object.assign(options, { model }),
+  speech: model => Object.assign({}, options, { model }),
 })
 
 export const createSpeechProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): SpeechProviderWithExtraOptions<T, T2> => ({
-  speech: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  speech: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createTranscriptionProvider = <T extends string = string>(options: CreateProviderOptions): TranscriptionProvider<T> => ({
-  transcription: model => Object.assign(options, { model }),
+  transcription: model => Object.assign({}, options, { model }),
 })
 
 export const createTranscriptionProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): TranscriptionProviderWithExtraOptions<T, T2> => ({
-  transcription: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  transcription: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
-- 
2.43.0


From cd43b591b2e63fe09cab3d2a1d4f9b0ba8f03dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 10/31] fix: forward transforms and Headers instances to
 OpenRouter

---
 packages-ext/providers/src/manual/providers/openrouter.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/openrouter.ts b/packages-ext/providers/src/manual/providers/openrouter.ts
index 7a85d95..f7c45f3 100644
--- a/packages-ext/providers/src/manual/providers/openrouter.ts
+++ b/packages-ext/providers/src/manual/providers/openrouter.ts
@@ -104,10 +104,10 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
     chat: (model: string, openRouterOptions?: OpenRouterOptions) => {
       const requestOptions: CommonRequestOptions = { apiKey, baseURL, model }
 
-      const toOpenRouterOptions = ({ extraHeaders, models, provider }: OpenRouterOptions): Record<string, unknown> => {
+      const toOpenRouterOptions = ({ extraHeaders, models, provider, transforms }: OpenRouterOptions): Record<string, unknown> => {
         if (extraHeaders != null) {
           requestOptions.headers ??= {}
-          Object.assign(requestOptions.headers, extraHeaders)
+          Object.assign(requestOptions.headers, extraHeaders instanceof Headers ? Object.fromEntries(extraHeaders) : extraHeaders)
         }
 
         let transformedProvider: Record<string, unknown> | undefined
@@ -118,6 +118,7 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
         return objCamelToSnake({
           models,
           provider: transformedProvider,
+          transforms,
         })
       }
 
-- 
2.43.0


From b949d2e25703a0d3a37007beae814e97097b9c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 11/31] fix: send the headers of a Headers instance and let the
 caller's headers win

---
 packages/shared/src/utils/post-json.ts       |  5 +----
 packages/shared/src/utils/request-headers.ts | 22 ++++++++++++++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/packages/shared/src/utils/post-json.ts b/packages/shared/src/utils/post-json.ts
index a841b9b..ffecd3c 100644
--- a/packages/shared/src/utils/post-json.ts
+++ b/packages/shared/src/utils/post-json.ts
@@ -8,10 +8,7 @@ import { responseCatch } from './response-catch'
 export const postJSON = async (path: string, options: WithUnknown<CommonRequestOptions>) =>
   (options.fetch ?? globalThis.fetch)(requestURL(path, options.baseURL), {
     body: requestBody(options),
-    headers: requestHeaders({
-      'Content-Type': 'application/json',
-      ...options.headers,
-    }, options.apiKey),
+    headers: requestHeaders(options.headers, options.apiKey, { 'Content-Type': 'application/json' }),
     method: 'POST',
     signal: options.abortSignal,
   }).then(responseCatch)
diff --git a/packages/shared/src/utils/request-headers.ts b/packages/shared/src/utils/request-headers.ts
index b9a8c9a..6cd6ef7 100644
--- a/packages/shared/src/utils/request-headers.ts
+++ b/packages/shared/src/utils/request-headers.ts
@@ -2,7 +2,21 @@ import type { CommonRequestOptions } from '../types'
 
 import { clean } from './clean'
 
-export const requestHeaders = (headers?: CommonRequestOptions['headers'], apiKey?: CommonRequestOptions['apiKey']) => clean({
-  Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined,
-  ...headers,
-})
+export const requestHeaders = (
+  headers?: CommonRequestOptions['headers'],
+  apiKey?: CommonRequestOptions['apiKey'],
+  defaults?: Record<string, string>,
+) => {
+  const custom: Record<string, string> = headers instanceof Headers ? Object.fromEntries(headers) : { ...headers }
+  // header names are case-insensitive
+  const customNames = new Set(Object.keys(custom).map(name => name.toLowerCase()))
+  const base = {
+    Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined,
+    ...defaults,
+  }
+
+  return clean({
+    ...Object.fromEntries(Object.entries(base).filter(([name]) => !customNames.has(name.toLowerCase()))),
+    ...custom,
+  })
+}
-- 
2.43.0


From 665360abfbf5dfcf3b5364cde276dc31099146d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 12/31] fix: keep all text when smoothing a stream

---
 packages/utils-stream/src/smooth-stream.ts | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/packages/utils-stream/src/smooth-stream.ts b/packages/utils-stream/src/smooth-stream.ts
index 17bc5e1..ecd6dce 100644
--- a/packages/utils-stream/src/smooth-stream.ts
+++ b/packages/utils-stream/src/smooth-stream.ts
@@ -28,17 +28,29 @@ export const smoothStream = ({ chunking = 'word', delay = 10 }: SmoothStreamOpti
 
   let buffer = ''
 
+  const findMatch = () => {
+    // the match must not depend on a previous one, even if the pattern is global
+    chunkingRegexp.lastIndex = 0
+
+    const match = chunkingRegexp.exec(buffer)
+    return match !== null && match[0].length > 0 ? match : null
+  }
+
   return new TransformStream<string, string>({
+    flush: (controller) => {
+      if (buffer.length > 0)
+        controller.enqueue(buffer)
+    },
     transform: async (chunk, controller) => {
       buffer += chunk
 
-      let match = chunkingRegexp.exec(buffer)
+      let match = findMatch()
       while (match !== null) {
-        const result = match[0]
+        const result = buffer.slice(0, match.index + match[0].length)
         controller.enqueue(result)
         buffer = buffer.slice(result.length)
 
-        match = chunkingRegexp.exec(buffer)
+        match = findMatch()
 
         await sleep(delay)
       }
-- 
2.43.0


From b37947c7df96c40ee79fb2b48307b9248247f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 13/31] fix: stream every element exactly once however the text
 is split

---
 .../stream-object/src/utils/to-element-stream.ts     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/stream-object/src/utils/to-element-stream.ts b/packages/stream-object/src/utils/to-element-stream.ts
index b5bed5b..ae0aa0d 100644
--- a/packages/stream-object/src/utils/to-element-stream.ts
+++ b/packages/stream-object/src/utils/to-element-stream.ts
@@ -9,17 +9,17 @@ export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStre
   return stream.pipeThrough(new TransformStream<string, T>({
     flush: (controller) => {
       const data = parse(partialObjectData) as PartialDeep<T>
-      controller.enqueue((data as { elements: T[] }).elements.at(-1))
+      for (const element of (data as { elements: T[] }).elements.slice(index))
+        controller.enqueue(element)
     },
     transform: (chunk, controller) => {
       partialObjectData += chunk
       try {
         const data = parse(partialObjectData) as PartialDeep<T>
-        if (
-          Array.isArray(Object.getOwnPropertyDescriptor(data, 'elements')?.value)
-          && (data as { elements: T[] }).elements.length > index + 1
-        ) {
-          controller.enqueue((data as { elements: T[] }).elements[index++])
+        if (Array.isArray(Object.getOwnPropertyDescriptor(data, 'elements')?.value)) {
+          // the last element may still be incomplete
+          while ((data as { elements: T[] }).elements.length > index + 1)
+            controller.enqueue((data as { elements: T[] }).elements[index++])
         }
       }
       catch {}
-- 
2.43.0


From 6a54e8231de15ddea23acce775b3e913e9d46ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 14/31] fix: close the wrapper of array output against
 additional properties

---
 packages/generate-object/src/_wrap.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/generate-object/src/_wrap.ts b/packages/generate-object/src/_wrap.ts
index b2b7046..d06c802 100644
--- a/packages/generate-object/src/_wrap.ts
+++ b/packages/generate-object/src/_wrap.ts
@@ -1,6 +1,7 @@
 import type { JsonSchema } from 'xsschema'
 
 export const wrap = (items: JsonSchema): JsonSchema => ({
+  additionalProperties: false,
   properties: {
     elements: {
       items,
-- 
2.43.0


From b5d250fbf549b37fe51d4a7ed6c1d384043c8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 15/31] fix: keep the reasoning text of a generated object

---
 packages/generate-object/src/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/generate-object/src/index.ts b/packages/generate-object/src/index.ts
index 2adcb61..0dcd6df 100644
--- a/packages/generate-object/src/index.ts
+++ b/packages/generate-object/src/index.ts
@@ -48,7 +48,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
     schemaDescription: undefined, // Remove schemaDescription from options
     schemaName: undefined, // Remove schemaName from options
     strict: undefined, // Remove strict from options
-  }).then(async ({ finishReason, messages, steps, text, toolCalls, toolResults, totalUsage, usage }) => {
+  }).then(async ({ finishReason, messages, reasoningText, steps, text, toolCalls, toolResults, totalUsage, usage }) => {
     if (text == null || text.length === 0) {
       throw new InvalidResponseError('Cannot generate an object from an empty response.', {
         reason: 'empty_body',
@@ -64,6 +64,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
         object: await Promise.all((json as { elements: Schema.InferInput<T>[] })
           .elements
           .map(async element => validate(options.schema, element))),
+        reasoningText,
         steps,
         text,
         toolCalls,
@@ -77,6 +78,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
         finishReason,
         messages,
         object: await validate(options.schema, json as Schema.InferInput<T>),
+        reasoningText,
         steps,
         text,
         toolCalls,
-- 
2.43.0


From b801e757c6358831fe494f3be0c4efce8cff47d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 16/31] fix: pass HTTP errors of the model list through

---
 packages-ext/providers/src/manual/providers/featherless.ts | 5 +++--
 packages-ext/providers/src/manual/providers/together-ai.ts | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/featherless.ts b/packages-ext/providers/src/manual/providers/featherless.ts
index 648404a..15bcf0d 100644
--- a/packages-ext/providers/src/manual/providers/featherless.ts
+++ b/packages-ext/providers/src/manual/providers/featherless.ts
@@ -14,7 +14,8 @@ export const createFeatherless = (apiKey: string, baseURL = 'https://api.feather
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      .then(async res => res.ok
+        ? Response.json({ data: await res.json() as unknown[], object: 'list' })
+        : res),
   }),
 )
diff --git a/packages-ext/providers/src/manual/providers/together-ai.ts b/packages-ext/providers/src/manual/providers/together-ai.ts
index 55ac5e2..8681bb0 100644
--- a/packages-ext/providers/src/manual/providers/together-ai.ts
+++ b/packages-ext/providers/src/manual/providers/together-ai.ts
@@ -18,7 +18,8 @@ export const createTogetherAI = (apiKey: string, baseURL = 'https://api.together
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      .then(async res => res.ok
+        ? Response.json({ data: await res.json() as unknown[], object: 'list' })
+        : res),
   }),
 )
-- 
2.43.0


From 66286a6035a9e18c83b153aba03f80144cec4b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 17/31] fix: pass HTTP errors of Player2 speech through

---
 packages-ext/providers/src/special/providers/player2.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages-ext/providers/src/special/providers/player2.ts b/packages-ext/providers/src/special/providers/player2.ts
index a3d444c..fa5f5cb 100644
--- a/packages-ext/providers/src/special/providers/player2.ts
+++ b/packages-ext/providers/src/special/providers/player2.ts
@@ -47,7 +47,11 @@ export const createPlayer2 = (baseURL = 'http://localhost:4315/v1/', gameKey = '
       catch (err) {
         console.warn('Could not parse body as JSON:', err)
       }
-      return globalThis.fetch(newUrl, reqInit).then(async res => res.json() as Promise<{ data?: string }>).then((json: { data?: string }) => {
+      return globalThis.fetch(newUrl, reqInit).then(async (res) => {
+        if (!res.ok)
+          return res
+
+        const json = await res.json() as { data?: string }
         const base64 = json.data ?? ''
         const bytes = Uint8Array.fromBase64(base64)
         const body = new ReadableStream({
-- 
2.43.0


From a8b77e9d959a84ae82f1b12e87fe25fb93aa48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 18/31] fix: separate a flushed rest from the previous block

---
 packages/utils-reasoning/src/extract-reasoning-stream.ts | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning-stream.ts b/packages/utils-reasoning/src/extract-reasoning-stream.ts
index 6383f57..bc29bb3 100644
--- a/packages/utils-reasoning/src/extract-reasoning-stream.ts
+++ b/packages/utils-reasoning/src/extract-reasoning-stream.ts
@@ -54,14 +54,7 @@ export const extractReasoningStream = (stream: ReadableStream<string>, options:
   stream.pipeTo(
     new WritableStream({
       close: () => {
-        if (buffer.length > 0) {
-          if (isReasoning) {
-            reasoningStreamController?.enqueue(buffer)
-          }
-          else {
-            textStreamController?.enqueue(buffer)
-          }
-        }
+        enqueueStream(buffer)
         reasoningStreamController?.close()
         textStreamController?.close()
       },
-- 
2.43.0


From af40ecda3322771a6d4723f1b30086d52da9a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 19/31] fix: retry requests with a body

---
 packages-top/xsfetch/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index d3e773c..ddf8a13 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -20,7 +20,8 @@ export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): type
   const options: Readonly<CreateFetchOptions> = Object.assign({}, defaults, userOptions)
 
   const xsfetch = async (retriesLeft: number, input: Request | string | URL, init?: RequestInit) => {
-    const res = await fetch(input, init)
+    // the body of a request can be read only once
+    const res = await fetch(input instanceof Request ? input.clone() : input, init)
 
     if (res.ok || retriesLeft === 0 || !options.retryStatusCodes.includes(res.status))
       return res
-- 
2.43.0


From bd6b812e71bcbbfc039c18da6fb4c06cb39618dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 20/31] fix: do not retry forever when an option is undefined

---
 packages-top/xsfetch/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index ddf8a13..cf48848 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -17,7 +17,7 @@ const defaults: CreateFetchOptions = {
 }
 
 export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): typeof globalThis.fetch => {
-  const options: Readonly<CreateFetchOptions> = Object.assign({}, defaults, userOptions)
+  const options: Readonly<CreateFetchOptions> = Object.assign({}, defaults, Object.fromEntries(Object.entries(userOptions).filter(([, v]) => v !== undefined)))
 
   const xsfetch = async (retriesLeft: number, input: Request | string | URL, init?: RequestInit) => {
     // the body of a request can be read only once
-- 
2.43.0


From 57b90492bbde97e7885cad5b308e7ecf08d4c0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 21/31] fix: do not name an unnamed file "undefined"

---
 packages/generate-transcription/src/index.ts | 5 ++++-
 packages/stream-transcription/src/index.ts   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/generate-transcription/src/index.ts b/packages/generate-transcription/src/index.ts
index 1cd6a09..106579b 100644
--- a/packages/generate-transcription/src/index.ts
+++ b/packages/generate-transcription/src/index.ts
@@ -72,7 +72,10 @@ export const generateTranscription = async <
   const body = new FormData()
 
   body.append('model', options.model)
-  body.append('file', options.file, options.fileName)
+  if (options.fileName != null)
+    body.append('file', options.file, options.fileName)
+  else
+    body.append('file', options.file)
   body.append('response_format', options.responseFormat ?? 'json')
 
   // make ts happy
diff --git a/packages/stream-transcription/src/index.ts b/packages/stream-transcription/src/index.ts
index 801b318..341283f 100644
--- a/packages/stream-transcription/src/index.ts
+++ b/packages/stream-transcription/src/index.ts
@@ -41,7 +41,10 @@ export const streamTranscription = (options: WithUnknown<StreamTranscriptionOpti
     // Build FormData for file upload
     const body = new FormData()
     body.append('model', options.model)
-    body.append('file', options.file, options.fileName)
+    if (options.fileName != null)
+      body.append('file', options.file, options.fileName)
+    else
+      body.append('file', options.file)
     body.append('stream', 'true')
 
     if (options.language != null)
-- 
2.43.0


From 0ce697440891028c07464112f1c0dbb8a233889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 22/31] fix: do not drop a refusal next to tool calls

---
 packages/stream-text/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 90def9e..9f16adb 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -188,7 +188,7 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
             finishReason = choice.finish_reason
 
           // an empty content next to tool calls carries no text
-          if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null || choice.delta.content) {
+          if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null || choice.delta.content || choice.delta.refusal) {
             if (choice.delta.content != null) {
               if (!textStarted) {
                 textStarted = true
-- 
2.43.0


From 1f994e805d51ea0d19098ca56cf517466a6759a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:02 +0000
Subject: [PATCH 23/31] fix: do not drop a refusal next to tool calls
 (telemetry)

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index d2f36a2..363e5e1 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -161,7 +161,7 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
               finishReason = choice.finish_reason
 
             // an empty content next to tool calls carries no text
-            if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null || choice.delta.content) {
+            if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null || choice.delta.content || choice.delta.refusal) {
               if (choice.delta.content != null) {
                 if (!textStarted) {
                   textStarted = true
-- 
2.43.0


From 04f5b9db29fd3f6eac0ecbd5d7acfdaec3e610a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:55 +0000
Subject: [PATCH 24/31] fix: extract reasoning from tags whose name contains
 pattern characters

---
 packages/utils-reasoning/src/extract-reasoning.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning.ts b/packages/utils-reasoning/src/extract-reasoning.ts
index a76b242..5306034 100644
--- a/packages/utils-reasoning/src/extract-reasoning.ts
+++ b/packages/utils-reasoning/src/extract-reasoning.ts
@@ -21,7 +21,8 @@ export const extractReasoning = (text: string, options: ExtractReasoningOptions
   const separator = options.separator ?? '\n'
   const fullText = options.startWithReasoning ? startTag + text : text
 
-  const regex = new RegExp(`${startTag}(.*?)${endTag}`, 'gs')
+  const escape = (tag: string) => tag.replace(/[.*+?^${}()|[\]\\]/g, '\\$&')
+  const regex = new RegExp(`${escape(startTag)}(.*?)${escape(endTag)}`, 'gs')
   const reasonMatches = [...fullText.matchAll(regex)]
 
   if (reasonMatches.length === 0) {
-- 
2.43.0


From 094020a7e66300eba7cf35c1dfa0839ebd1e42d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:50 +0000
Subject: [PATCH 25/31] fix: instrumented embed no longer fails when the server
 reports no usage

---
 packages-ext/telemetry/src/wrapped/embed.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/embed.ts b/packages-ext/telemetry/src/wrapped/embed.ts
index 8aa9786..5f58eb2 100644
--- a/packages-ext/telemetry/src/wrapped/embed.ts
+++ b/packages-ext/telemetry/src/wrapped/embed.ts
@@ -18,7 +18,8 @@ export const embed = async (options: WithTelemetry<EmbedOptions>): Promise<Embed
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbed(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    // not every server reports usage
+    span.setAttributes({ 'gen_ai.usage.input_tokens': (result.usage as EmbedResult['usage'] | undefined)?.prompt_tokens })
     return result
   })
 }
@@ -33,7 +34,8 @@ export const embedMany = async (options: WithTelemetry<EmbedManyOptions>): Promi
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedManyResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbedMany(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    // not every server reports usage
+    span.setAttributes({ 'gen_ai.usage.input_tokens': (result.usage as EmbedResult['usage'] | undefined)?.prompt_tokens })
     return result
   })
 }
-- 
2.43.0


From d32f4d4e45de31fd4f02de59a55a30cc1325af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:50 +0000
Subject: [PATCH 26/31] fix: tracing a tool no longer fails it for inputs or
 results without JSON form

---
 packages-ext/telemetry/src/utils/wrap-tool.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 9d5b183..f1eec9f 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -3,13 +3,23 @@ import type { Tool, ToolExecuteOptions } from 'xsai'
 
 import { recordSpan } from './record-span'
 
+// attributes are best effort: a value without JSON form (BigInt, cyclic) must not fail the tool
+const toAttribute = (value: unknown): string | undefined => {
+  try {
+    return JSON.stringify(value)
+  }
+  catch {
+    return undefined
+  }
+}
+
 export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
   ...tool,
   execute: async (input: unknown, options: ToolExecuteOptions) =>
     recordSpan({
       attributes: {
         'gen_ai.operation.name': 'execute_tool',
-        'gen_ai.tool.call.arguments': JSON.stringify(input),
+        'gen_ai.tool.call.arguments': toAttribute(input),
         'gen_ai.tool.call.description': tool.function.description,
         'gen_ai.tool.call.id': options.toolCallId,
         'gen_ai.tool.call.name': tool.function.name,
@@ -18,7 +28,7 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
       tracer,
     }, async (span) => {
       const result = await tool.execute(input, options)
-      span.setAttribute('gen_ai.tool.call.result', JSON.stringify(result))
+      span.setAttributes({ 'gen_ai.tool.call.result': toAttribute(result) })
       return result
     }),
 })
-- 
2.43.0


From 296dc39632abfe143d36fcb3f8bccbe5d0d9e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:50 +0000
Subject: [PATCH 27/31] fix: instrumented streamText sends an empty tool list
 like streamText does

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 363e5e1..63dd0b6 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -52,9 +52,7 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
     void options.onStepFinish?.(step)
   }
 
-  const tools = options.tools != null && options.tools.length > 0
-    ? options.tools.map(tool => wrapTool(tool, tracer))
-    : undefined
+  const tools = options.tools?.map(tool => wrapTool(tool, tracer))
 
   const doStream = async () => {
     usage = undefined
-- 
2.43.0


From 9e580de00acc4c8adedda97249025ddb50b61928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 28/31] fix: recognise WebP and AVIF images of any header size

---
 packages/generate-image/src/index.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/generate-image/src/index.ts b/packages/generate-image/src/index.ts
index 8210ac9..be5712f 100644
--- a/packages/generate-image/src/index.ts
+++ b/packages/generate-image/src/index.ts
@@ -58,10 +58,15 @@ export interface GenerateImageResultImage {
 /** @internal */
 const mimeTypes = {
   '/9j/': 'image/jpg',
+  // the size of the ftyp box depends on the number of compatible brands
+  'AAAAGGZ0eXBhdmlm': 'image/avif',
+  'AAAAHGZ0eXBhdmlm': 'image/avif',
   'AAAAIGZ0eXBhdmlm': 'image/avif',
+  'AAAAJGZ0eXBhdmlm': 'image/avif',
   'iVBORw0KGgo': 'image/png',
   'R0lGOD': 'image/gif',
-  'UklGRg==': 'image/webp',
+  // RIFF, followed by the size of the file
+  'UklGR': 'image/webp',
 }
 
 /** @internal */
-- 
2.43.0


From 66e5b741fb52e61163e386dd95b1589de7fff51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 29/31] fix: a run that fails with null or undefined no longer
 counts as a success

---
 packages-ext/responses/src/utils/responses.ts     | 9 +++++++--
 packages-ext/telemetry/src/wrapped/stream-text.ts | 9 +++++++--
 packages/stream-text/src/index.ts                 | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index bc686d3..94474bb 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -359,12 +359,15 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   void (async () => {
+    // anything can be thrown, even undefined
+    let failed = false
     let finalError: unknown
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
 
@@ -372,10 +375,12 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      if (!failed)
+        finalError = err
+      failed = true
     }
 
-    if (finalError != null) {
+    if (failed) {
       errorControllers(finalError, fullCtrl, textCtrl, reasoningTextCtrl, eventCtrl)
 
       // a failure observed on some of the outputs is not unhandled on the others
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 63dd0b6..b11fb94 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -292,22 +292,27 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
   }
 
   void (async () => {
+    // anything can be thrown, even undefined
+    let failed = false
     let finalError: unknown
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
     try {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      if (!failed)
+        finalError = err
+      failed = true
     }
 
-    if (finalError != null) {
+    if (failed) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
       // a failure observed on some of the outputs is not unhandled on the others
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 9f16adb..302cc1a 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -305,22 +305,27 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
   }
 
   void (async () => {
+    // anything can be thrown, even undefined
+    let failed = false
     let finalError: unknown
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
     try {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      if (!failed)
+        finalError = err
+      failed = true
     }
 
-    if (finalError != null) {
+    if (failed) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
       // a failure observed on some of the outputs is not unhandled on the others
-- 
2.43.0


From ec81b5d28e4b3ced6001a919072e4c888be20d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 30/31] fix: output items of unknown types stay in the history
 of a responses run

---
 packages-ext/responses/src/utils/normalize-output.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages-ext/responses/src/utils/normalize-output.ts b/packages-ext/responses/src/utils/normalize-output.ts
index bc0b2ea..9055d5d 100644
--- a/packages-ext/responses/src/utils/normalize-output.ts
+++ b/packages-ext/responses/src/utils/normalize-output.ts
@@ -12,5 +12,8 @@ export const normalizeOutput = (item: ItemField): ItemParam => {
       return item as AssistantMessageItemParam | DeveloperMessageItemParam | SystemMessageItemParam | UserMessageItemParam
     case 'reasoning':
       return item as ReasoningItemParam
+    // items of types that are not known here are part of the conversation all the same
+    default:
+      return item as ItemParam
   }
 }
-- 
2.43.0


From c5baf3222de9214ae234cb899a577a95a65e1151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 31/31] fix: keep local references of the schema valid in the
 wrapper of array outputs

---
 packages/generate-object/src/_wrap.ts | 28 ++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/packages/generate-object/src/_wrap.ts b/packages/generate-object/src/_wrap.ts
index d06c802..90b201a 100644
--- a/packages/generate-object/src/_wrap.ts
+++ b/packages/generate-object/src/_wrap.ts
@@ -1,10 +1,36 @@
 import type { JsonSchema } from 'xsschema'
 
+const data = ['const', 'default', 'enum', 'examples']
+const named = ['$defs', 'definitions', 'dependentSchemas', 'patternProperties', 'properties']
+
+// a local reference starts at the root, which the wrapped schema no longer is
+const rebase = (value: unknown, isNamed = false): unknown => {
+  if (Array.isArray(value))
+    return value.map(item => rebase(item))
+
+  if (typeof value !== 'object' || value === null)
+    return value
+
+  // a schema with its own identifier is the root of its references
+  if (!isNamed && typeof (value as JsonSchema).$id === 'string')
+    return value
+
+  return Object.fromEntries(Object.entries(value).map(([key, child]) => {
+    if (isNamed)
+      return [key, rebase(child)]
+
+    if (key === '$ref' && typeof child === 'string' && (child === '#' || child.startsWith('#/')))
+      return [key, `#/properties/elements/items${child.slice(1)}`]
+
+    return [key, data.includes(key) ? child : rebase(child, named.includes(key))]
+  }))
+}
+
 export const wrap = (items: JsonSchema): JsonSchema => ({
   additionalProperties: false,
   properties: {
     elements: {
-      items,
+      items: rebase(items) as JsonSchema,
       type: 'array',
     },
   },
-- 
2.43.0

