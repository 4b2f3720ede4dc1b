-------------------------------- MODULE Retry --------------------------------
(***************************************************************************)
(* The retrying fetch: calls in flight through one fetch, each with its    *)
(* own attempts and waits, under a virtual clock.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Retries,     \* subset of Nat \cup {-1}; -1: not configured (3)
  Delays,      \* subset of Nat \cup {-1}; -1: not configured (500)
  CodeSets,    \* {"default", "custom"}
  Reactions,   \* subset of {"ok", "retryable", "other", "net"}
  MaxCalls, MaxAttempts,
  Sim

VARIABLES cfg, now, calls, h
\* calls[i] = [st: "asking" | "waiting" | "done", left, at: time the wait ends, tries, out]
vars == <<cfg, now, calls, h>>

Retry == IF cfg.retry = -1 THEN 3 ELSE cfg.retry
Delay == IF cfg.delay = -1 THEN 500 ELSE cfg.delay
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

Init ==
  /\ \E r \in Retries, d \in Delays, c \in CodeSets : cfg = [retry |-> r, delay |-> d, codes |-> c]
  /\ now = 0 /\ calls = <<>> /\ h = <<>>

Issue ==
  /\ Len(calls) < MaxCalls
  /\ calls' = Append(calls, [st |-> "asking", left |-> Retry, at |-> 0, tries |-> 1, out |-> "none"])
  /\ h' = Append(h, [o |-> "issue", c |-> Len(calls) + 1])
  /\ UNCHANGED <<cfg, now>>

Answer(i) ==
  /\ calls[i].st = "asking"
  /\ \E r \in Pick(Reactions) :
       /\ h' = Append(h, [o |-> "answer", c |-> i, r |-> r, again |-> (r = "retryable" /\ calls[i].left > 0)])
       /\ calls' = [calls EXCEPT ![i] =
            IF r = "retryable" /\ @.left > 0
            THEN [@ EXCEPT !.st = "waiting", !.at = now + Delay]
            ELSE [@ EXCEPT !.st = "done", !.out = r]]
  /\ UNCHANGED <<cfg, now>>

\* time passes until the earliest wait ends; equal waits end in the order they began
Elapse ==
  /\ \E i \in DOMAIN calls :
       /\ calls[i].st = "waiting"
       /\ \A j \in DOMAIN calls : calls[j].st = "waiting" => calls[i].at <= calls[j].at
       /\ now' = calls[i].at
       /\ calls' = [j \in DOMAIN calls |->
            IF calls[j].st = "waiting" /\ calls[j].at = now'
            THEN [calls[j] EXCEPT !.st = "asking", !.left = @ - 1, !.tries = @ + 1] ELSE calls[j]]
       /\ h' = Append(h, [o |-> "elapse", to |-> now', woken |-> {j \in DOMAIN calls : calls[j].st = "waiting" /\ calls[j].at = now'}])
  /\ UNCHANGED cfg

\* a little time passes, not enough to end any wait: nothing is sent
Early ==
  /\ \E i \in DOMAIN calls : calls[i].st = "waiting"
  /\ \A j \in DOMAIN calls : calls[j].st = "waiting" => calls[j].at > now + 1
  /\ (h = <<>> \/ h[Len(h)].o # "early")
  /\ now' = now + 1
  /\ h' = Append(h, [o |-> "early", to |-> now'])
  /\ UNCHANGED <<cfg, calls>>

Next == Issue \/ (\E i \in DOMAIN calls : Answer(i)) \/ Elapse \/ Early
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
Bounded == \A i \in DOMAIN calls : calls[i].tries <= Retry + 1
LastResort == \A i \in DOMAIN calls : (calls[i].st = "done" /\ calls[i].out = "retryable") => calls[i].tries = Retry + 1
\* the attempts of a call: all but the last were answered with a retryable status
Answers(i) == SelectSeq(h, LAMBDA x : x.o = "answer" /\ x.c = i)
FirstOther == \A i \in DOMAIN calls : LET a == Answers(i) IN \A k \in 1..(Len(a) - 1) : a[k].r = "retryable"
Counted == \A i \in DOMAIN calls : calls[i].tries = Len(Answers(i)) + (IF calls[i].st = "asking" THEN 1 ELSE 0)

Complete == Len(calls) = MaxCalls /\ \A i \in DOMAIN calls : calls[i].st = "done"
Bound == \A i \in DOMAIN calls : calls[i].tries <= MaxAttempts
Emit == Complete => PrintT("@@" \o ToJson([cfg |-> cfg, h |-> h]))
===============================================================================
