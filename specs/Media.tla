-------------------------------- MODULE Media --------------------------------
(***************************************************************************)
(* The endpoints that map one request to one answer (embeddings, models,   *)
(* speech, transcription), with several calls under way at the same time:  *)
(* what each request carries and what each call gives back.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, MaxCalls,
          Options,    \* "all": every subset of the optional settings | "few": none, all | "one": none or a single one
          Fates,      \* subset of {"ok", "http"}
          MaxItems,   \* vectors / models / chunks in an answer
          Sim

VARIABLES pc, h, calls, st
vars == <<pc, h, calls, st>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

\* ---------------------------------------------------------------- requests
Required(k) == CASE k \in {"embed", "embedMany"} -> {"model", "input"}
                 [] k \in {"speech", "streamSpeech"} -> {"model", "input", "voice"}
                 [] k \in {"transcription", "streamTranscription"} -> {"model", "file"}
                 [] OTHER -> {}
Optional(k) == CASE k \in {"embed", "embedMany"} -> {"dimensions", "encodingFormat", "user"}
                 [] k \in {"speech", "streamSpeech"} -> {"instructions", "responseFormat", "speed"}
                 [] k = "transcription" -> {"fileName", "language", "prompt", "temperature", "json", "verbose", "word", "segment"}
                 [] k = "streamTranscription" -> {"fileName", "language", "prompt", "temperature"}
                 [] OTHER -> {}
Wire(o) == CASE o = "encodingFormat" -> "encoding_format" [] o = "responseFormat" -> "response_format" [] OTHER -> o
Choices(k) == LET all == {x \in SUBSET Optional(k) : ~({"json", "verbose"} \subseteq x) /\ ~({"word", "segment"} \subseteq x)} IN
  IF Options = "all" THEN all
  ELSE IF Options = "one" THEN {x \in all : Cardinality(x) <= 1}
  ELSE {{}, Optional(k) \ {"json", "word"}}

\* the named settings of a request: [name, from] where from is the option it comes from, or "=..." for a fixed value
Plain(k, opts) == {[name |-> Wire(o), from |-> o] : o \in Required(k) \cup (opts \ {"fileName", "json", "verbose", "word", "segment"})}
Fields(k, opts) ==
  CASE k = "transcription" ->
         Plain(k, opts) \cup {[name |-> "response_format", from |-> IF "verbose" \in opts THEN "=verbose_json" ELSE "=json"]}
         \cup (IF "verbose" \in opts THEN {[name |-> "timestamp_granularities[]", from |-> IF "word" \in opts THEN "=word" ELSE "=segment"]} ELSE {})
    [] k = "streamTranscription" -> Plain(k, opts) \cup {[name |-> "stream", from |-> "=true"]}
    [] k = "streamSpeech" -> Plain(k, opts) \cup {[name |-> "stream_format", from |-> "=sse"]}
    [] OTHER -> Plain(k, opts)
Path(k) == CASE k \in {"embed", "embedMany"} -> "embeddings" [] k \in {"speech", "streamSpeech"} -> "audio/speech"
             [] k \in {"transcription", "streamTranscription"} -> "audio/transcriptions" [] k = "listModels" -> "models" [] OTHER -> "models/+model"
Method(k) == IF k \in {"listModels", "retrieveModel"} THEN "GET" ELSE "POST"
Form(k) == k \in {"transcription", "streamTranscription"}

\* ---------------------------------------------------------------- answers
Counts(k) == CASE k = "embed" -> {1} [] k \in {"embedMany", "listModels", "streamSpeech", "streamTranscription", "speech"} -> 0 .. MaxItems [] OTHER -> {1}
Reports(k) == IF k \in {"embed", "embedMany", "streamSpeech"} THEN BOOLEAN ELSE {FALSE}
\* what the call gives back, in terms of the pieces of the answer to this very call
Result(i, c) == [owner |-> i, items |-> [j \in 1 .. c.n |-> j], usage |-> c.usage]

CallsOf(k) == [kind : {k}, opts : Choices(k), n : Counts(k), usage : Reports(k), fate : Fates]
AllCalls == UNION {CallsOf(k) : k \in Kinds}
Init == /\ pc = "go" /\ h = <<>> /\ calls = <<>> /\ st = <<>>

\* st: "asked" | "done" | "failed"; a call may start while others are under way
Start ==
  /\ pc = "go" /\ Len(calls) < MaxCalls
  /\ \E k \in Pick(Kinds) : \E opts \in Pick(Choices(k)) : \E n \in Pick(Counts(k)) : \E u \in Pick(Reports(k)) : \E f \in Pick(Fates) :
       LET c == [kind |-> k, opts |-> opts, n |-> n, usage |-> u, fate |-> f, path |-> Path(k), method |-> Method(k), form |-> Form(k), fields |-> Fields(k, opts)] IN
       /\ calls' = Append(calls, c)
       /\ st' = Append(st, "asked")
       /\ h' = Append(h, [o |-> "start", i |-> Len(calls) + 1, st |-> st'])
  /\ pc' = pc
Answer ==
  /\ pc = "go"
  /\ \E i \in 1 .. Len(calls) :
       /\ st[i] = "asked"
       /\ st' = [st EXCEPT ![i] = IF calls[i].fate = "ok" THEN "done" ELSE "failed"]
       /\ h' = Append(h, [o |-> "answer", i |-> i, st |-> st'])
  /\ UNCHANGED <<calls, pc>>
End == /\ pc = "go" /\ Len(calls) = MaxCalls /\ \A i \in 1 .. Len(calls) : st[i] # "asked"
       /\ pc' = "end" /\ UNCHANGED <<h, calls, st>>
Next == Start \/ Answer \/ End
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
\* an answer settles its own call and no other
Own == \A i \in 1 .. Len(h) : \A j \in 1 .. Len(h[i].st) : j # h[i].i /\ i > 1 /\ j <= Len(h[i - 1].st) => h[i].st[j] = h[i - 1].st[j]
\* nothing given is lost, nothing else is sent
Faithful == \A i \in 1 .. Len(calls) :
  LET c == calls[i] IN
  /\ \A o \in (Required(c.kind) \cup c.opts) \ {"fileName", "json", "verbose", "word", "segment"} : \E f \in c.fields : f.from = o
  /\ \A f, g \in c.fields : f.name = g.name => f = g
  /\ (\E f \in c.fields : f.name = "timestamp_granularities[]") <=> "verbose" \in c.opts

Results == [i \in 1 .. Len(calls) |-> Result(i, calls[i])]
Emit == pc = "end" => PrintT("@@" \o ToJson([h |-> h, calls |-> calls, results |-> Results]))
==============================================================================
