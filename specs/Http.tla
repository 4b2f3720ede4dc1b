-------------------------------- MODULE Http --------------------------------
(***************************************************************************)
(* Calls of the endpoints, possibly several in flight, and how the answer  *)
(* of the server (or its absence) becomes the outcome of each call.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Endpoints,    \* set of names
  KindOf,       \* [Endpoints -> {"chat", "json", "stream", "bytes"}]
  Reactions,    \* what the server does, see Outcome
  MaxCalls,
  Sim

VARIABLES calls,   \* sequence of [ep, st: "issued" | "answered", ans]
          h
vars == <<calls, h>>

\* failing statuses and the texts that come with them are chosen when a behaviour is rendered
Bad == {"redirect", "client", "retryable", "server"}
Outcome(kind, r) ==
  CASE r \in {"net", "netsync"} -> "network"                 \* passed on unchanged
    [] r \in Bad -> "status"                                  \* API-call error with status and full body text
    [] r = "badnobody" -> "status"
    [] r = "badcut" -> "broken"                               \* the error text itself cannot be read
    [] r = "nobody" -> "empty_body"
    [] r = "notstream" -> "invalid_body"
    [] r = "cut" -> "broken"                                  \* the body fails while it is read
    [] r = "notjson" -> (CASE kind \in {"chat", "json"} -> "parse" [] kind = "bytes" -> "ok" [] OTHER -> "parse")
    [] r = "blank" -> (CASE kind \in {"chat", "json"} -> "parse" [] kind = "bytes" -> "ok" [] OTHER -> "any")
    [] r = "nochoices" -> (IF kind = "chat" THEN "no_choices" ELSE "any")
    [] r = "errormsg" -> (CASE kind = "stream" -> "remote" [] OTHER -> "any")
    [] OTHER -> "ok"

Init == calls = <<>> /\ h = <<>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

Issue ==
  /\ Len(calls) < MaxCalls
  /\ \E e \in Pick(Endpoints) : calls' = Append(calls, [ep |-> e, st |-> "issued", out |-> ""]) /\ h' = Append(h, [o |-> "issue", c |-> Len(calls) + 1, ep |-> e])

\* "any": not the subject of this classification (for example a JSON answer of the wrong shape)
Answer(i) ==
  /\ calls[i].st = "issued"
  /\ \E r \in Pick(Reactions) :
       LET o == Outcome(KindOf[calls[i].ep], r) IN
       /\ o # "any"
       /\ calls' = [calls EXCEPT ![i].st = "answered", ![i].out = o]
       /\ h' = Append(h, [o |-> "answer", c |-> i, ep |-> calls[i].ep, r |-> r, out |-> o])

Next == Issue \/ \E i \in DOMAIN calls : Answer(i)
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
\* only a good answer is a success, and a good answer is always one
Success == \A i \in DOMAIN calls : calls[i].st = "answered" =>
  LET r == (CHOOSE k \in DOMAIN h : h[k].o = "answer" /\ h[k].c = i) IN
  /\ (calls[i].out = "ok") => h[r].r \in {"good", "goodother", "notjson", "blank"}
  /\ h[r].r \in {"good", "goodother"} => calls[i].out = "ok"
OneAnswer == \A i, j \in DOMAIN h : (h[i].o = "answer" /\ h[j].o = "answer" /\ h[i].c = h[j].c) => i = j

Complete == Len(calls) = MaxCalls /\ \A i \in DOMAIN calls : calls[i].st = "answered"
Emit == Complete => PrintT("@@" \o ToJson([h |-> h]))
===============================================================================
