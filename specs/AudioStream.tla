----------------------------- MODULE AudioStream -----------------------------
(***************************************************************************)
(* Streamed speech and streamed transcription as consumers see them: the   *)
(* outputs, the promise that goes with them, and the events of the server, *)
(* its failures and the consumer's cancellations in any order.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind,       \* "speech" | "transcription"
          Asks,       \* subset of {"ok", "net", "http", "empty"}
          Events,     \* subset of {"delta", "blank", "done", "usage", "unknown", "badaudio", "badjson", "remote"}
          Cuts,       \* BOOLEAN: the connection may be lost
          Cancels,    \* subset of the outputs
          MaxEvents, Sim

VARIABLES pc, h, n,   \* n: number of events so far
          log,        \* the deltas delivered so far (event numbers)
          outs,       \* state of each output: "open" | "closed" | "errored" | "cancelled"
          got,        \* deltas seen on each output
          prom,       \* the promise: "pending" | "value" | "nothing" | "failed"
          at,         \* the event whose usage was reported
          err
vars == <<pc, h, n, log, outs, got, prom, at, err>>

Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X
Outputs == IF Kind = "speech" THEN {"full"} ELSE {"full", "text"}
Obs(e) == [e EXCEPT !.got = got', !.outs = outs', !.prom = prom']
Entry(o, k) == [o |-> o, k |-> k, got |-> got, outs |-> outs, prom |-> prom]

Init == /\ pc = "ask" /\ h = <<>> /\ n = 0 /\ log = <<>> /\ outs = [o \in Outputs |-> "open"]
        /\ got = [o \in Outputs |-> <<>>] /\ prom = "pending" /\ at = 0 /\ err = ""

Failing(e) == /\ outs' = [o \in Outputs |-> IF outs[o] = "open" THEN "errored" ELSE outs[o]]
              /\ prom' = IF prom = "pending" THEN "failed" ELSE prom
              /\ err' = e /\ pc' = "end"
Ask ==
  /\ pc = "ask"
  /\ \E r \in Pick(Asks) :
       /\ IF r = "ok" THEN pc' = "open" /\ UNCHANGED <<outs, prom, err>> ELSE Failing(r)
       /\ UNCHANGED <<n, log, got, at>>
       /\ h' = Append(h, Obs(Entry("ask", r)))

Event ==
  /\ pc = "open" /\ n < MaxEvents /\ n' = n + 1
  /\ \E k \in Pick(Events) :
       /\ IF k \in {"badjson", "remote"} \/ (k = "badaudio" /\ Kind = "speech") THEN Failing(k) /\ UNCHANGED <<log, got, at>>
          ELSE /\ log' = IF k \in {"delta", "blank"} THEN Append(log, n') ELSE log
               /\ got' = [o \in Outputs |-> IF k \in {"delta", "blank"} /\ outs[o] = "open" THEN Append(got[o], n') ELSE got[o]]
               \* the first report of usage is the usage
               /\ prom' = IF k = "usage" /\ Kind = "speech" /\ prom = "pending" THEN "value" ELSE prom
               /\ at' = IF k = "usage" /\ Kind = "speech" /\ prom = "pending" THEN n' ELSE at
               /\ UNCHANGED <<outs, err, pc>>
       /\ h' = Append(h, Obs(Entry("event", k)))

Rare == Sim => RandomElement(1..8) = 1
Cut == /\ pc = "open" /\ Cuts /\ Rare /\ Failing("cut") /\ UNCHANGED <<n, log, got, at>> /\ h' = Append(h, Obs(Entry("cut", "")))
Close ==
  /\ pc = "open" /\ (Sim => n = MaxEvents) /\ pc' = "end"
  /\ outs' = [o \in Outputs |-> IF outs[o] = "open" THEN "closed" ELSE outs[o]]
  /\ prom' = IF prom = "pending" THEN (IF Kind = "speech" THEN "nothing" ELSE "value") ELSE prom
  /\ UNCHANGED <<n, log, got, at, err>>
  /\ h' = Append(h, Obs(Entry("close", "")))
\* an output nobody wants any more; the speech output is the only one
Cancel ==
  /\ pc = "open" /\ Rare
  /\ UNCHANGED <<n, log, got, at, err>>
  /\ \E o \in Cancels \cap Outputs :
       /\ outs[o] = "open"
       /\ outs' = [outs EXCEPT ![o] = "cancelled"]
       /\ pc' = IF Kind = "speech" THEN "end" ELSE pc
       /\ prom' = IF Kind = "speech" /\ prom = "pending" THEN "failed" ELSE prom
       /\ h' = Append(h, Obs(Entry("cancel", o)))

Next == Ask \/ Event \/ Cut \/ Close \/ Cancel
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
\* everything, in order, on every output that still wants it
Complete == \A o \in Outputs : outs[o] # "cancelled" => got[o] = log
Prefix == \A o \in Outputs : Len(got[o]) <= Len(log) /\ got[o] = SubSeq(log, 1, Len(got[o]))
\* nothing is left open or pending, and the failure is everywhere where something was still expected
Settled == pc = "end" => prom # "pending" /\ \A o \in Outputs : outs[o] # "open"
Agree == pc = "end" => \A o \in Outputs : outs[o] \in (IF err = "" THEN {"closed", "cancelled"} ELSE {"errored", "cancelled"})
FailedText == (pc = "end" /\ Kind = "transcription") => (prom = "failed" <=> err # "")
SettlesOnce == [][prom # "pending" => prom' = prom]_vars

Emit == pc = "end" => PrintT("@@" \o ToJson([kind |-> Kind, h |-> h, log |-> log, at |-> at, err |-> err]))
==============================================================================
