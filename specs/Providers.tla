----------------------------- MODULE Providers -----------------------------
(***************************************************************************)
(* Providers, the handles they hand out per capability and model, and the  *)
(* requests made through handles.  A handle is a value: its content is     *)
(* fixed by its provider and the arguments of its own creation, and only   *)
(* its owner changes it.  Requests are in flight together; a request of a  *)
(* deployment with an access token fetcher waits for its own token.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, CapsOf, ExtraCaps, MaxProvs, MaxHandles, MaxCalls, Extras, MaxOps, Edits, Sim

VARIABLES provs,    \* sequence of kinds
          handles,  \* sequence of [p, cap, x, edits]
          calls,    \* sequence of [h, seen, st]: seen is the handle's content when it was used
          h
vars == <<provs, handles, calls, h>>

Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X
Room == Len(h) < MaxOps
Init == provs = <<>> /\ handles = <<>> /\ calls = <<>> /\ h = <<>>

Create ==
  /\ Room /\ Len(provs) < MaxProvs
  /\ \E k \in Pick(Kinds) : provs' = Append(provs, k) /\ h' = Append(h, [o |-> "create", kind |-> k])
  /\ UNCHANGED <<handles, calls>>
Get ==
  /\ Room /\ Len(handles) < MaxHandles /\ Len(provs) > 0
  /\ \E p \in Pick(DOMAIN provs) : \E cap \in Pick(CapsOf[provs[p]]) :
       \E x \in IF <<provs[p], cap>> \in ExtraCaps THEN Pick(Extras) ELSE {"none"} :
         /\ handles' = Append(handles, [p |-> p, cap |-> cap, x |-> x, edits |-> 0])
         /\ h' = Append(h, [o |-> "get", p |-> p, cap |-> cap, x |-> x])
  /\ UNCHANGED <<provs, calls>>
Edit ==
  /\ Room /\ Edits /\ Len(handles) > 0
  /\ \E i \in Pick(DOMAIN handles) :
       /\ handles[i].edits = 0
       /\ handles' = [handles EXCEPT ![i].edits = 1]
       /\ h' = Append(h, [o |-> "edit", h |-> i])
  /\ UNCHANGED <<provs, calls>>

WaitsForToken(i) == provs[handles[i].p] = "azuretoken"
Issue ==
  /\ Room /\ Len(calls) < MaxCalls /\ Len(handles) > 0
  /\ \E i \in Pick(DOMAIN handles) :
       /\ calls' = Append(calls, [h |-> i, seen |-> handles[i], st |-> IF WaitsForToken(i) THEN "token" ELSE "sent"])
       /\ h' = Append(h, [o |-> "issue", h |-> i, edited |-> handles[i].edits])
  /\ UNCHANGED <<provs, handles>>
Token ==
  /\ \E c \in DOMAIN calls : calls[c].st = "token" /\
       \E ok \in Pick(BOOLEAN) :
         /\ calls' = [calls EXCEPT ![c].st = IF ok THEN "sent" ELSE "failed"]
         /\ h' = Append(h, [o |-> "token", c |-> c, ok |-> ok])
  /\ UNCHANGED <<provs, handles>>
Answer ==
  /\ \E c \in DOMAIN calls : calls[c].st = "sent" /\
       \E ok \in Pick(BOOLEAN) :
         /\ calls' = [calls EXCEPT ![c].st = IF ok THEN "done" ELSE "failed"]
         /\ h' = Append(h, [o |-> "answer", c |-> c, ok |-> ok])
  /\ UNCHANGED <<provs, handles>>
Next == Create \/ Get \/ Edit \/ Issue \/ Token \/ Answer
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* only its owner changes a handle
Values == [][\A i \in DOMAIN handles : i \in DOMAIN handles' /\
               (handles'[i] # handles[i] => h'[Len(h')].o = "edit" /\ h'[Len(h')].h = i)]_vars
\* a request is that of the handle at the time it was used
Frozen == [][\A c \in DOMAIN calls : calls'[c].seen = calls[c].seen]_vars
TokenFirst == \A c \in DOMAIN calls : calls[c].st = "done" /\ provs[calls[c].seen.p] = "azuretoken" =>
  \E j \in DOMAIN h : h[j].o = "token" /\ h[j].c = c /\ h[j].ok
Quiet == \A c \in DOMAIN calls : calls[c].st \in {"done", "failed"}
Terminal == ~Room /\ Quiet
Emit == (Terminal /\ Len(handles) > 0) => PrintT("@@" \o ToJson([h |-> h]))
=============================================================================
