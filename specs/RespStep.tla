------------------------------- MODULE RespStep -------------------------------
(***************************************************************************)
(* One step of a Responses API run: an arbitrary sequence of server events *)
(* arrives one by one.  Which outputs does each of them appear on, what    *)
(* becomes part of the conversation, and how does the step end.  Texts are *)
(* named by the number of the event that carried them.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  MaxEvents,
  Plain,      \* event kinds without further structure, see Out below
  Calls,      \* function calls 1..Calls may occur
  CallEvs,    \* which events of calls occur: subset of {"added", "delta", "argsdone", "done"}
  Ends,       \* subset of {"completed", "failed", "incomplete", "srverr", "cut"}
  Stops,      \* answers of the stop condition: subset of {"yes", "no"}
  Usages,     \* subset of {"yes", "no"}
  Sim

VARIABLES log, phase, out, items, order, end, lens
vars == <<log, phase, out, items, order, end, lens>>

\* phase[i] of a call: 0 unseen, 1 announced, 2 complete
Init ==
  /\ log = <<>> /\ phase = [i \in 1..Calls |-> 0]
  /\ out = [text |-> <<>>, reason |-> <<>>, ev |-> <<>>]
  /\ items = <<>> /\ order = <<>> /\ end = [e |-> "open"] /\ lens = <<>>

CallKinds == {[k |-> "call." \o e, i |-> i] : e \in CallEvs, i \in 1..Calls}
CallOk(x) ==
  CASE x.k = "call.added" -> phase[x.i] = 0
    [] x.k = "call.done" -> phase[x.i] <= 1 /\ ("added" \in CallEvs => phase[x.i] = 1)
    [] OTHER -> phase[x.i] = 1
Kinds == {[k |-> p, i |-> 0] : p \in Plain} \cup {x \in CallKinds : CallOk(x)}

\* what one server event contributes to the streams; n is its number
E(t, n, i) == <<[t |-> t, n |-> n, i |-> i]>>
EventsOf(x, n) ==
  CASE x.k = "created" -> E("step.start", n, 0)
    [] x.k \in {"part.output_text", "part.text", "part.refusal"} -> E("text.start", n, 0)
    [] x.k \in {"text.delta", "refusal.delta"} -> E("text.delta", n, 0)
    [] x.k \in {"text.done", "refusal.done"} -> E("text.done", n, 0)
    [] x.k = "reasoning.added" -> E("reasoning.start", n, 0)
    [] x.k \in {"reasoning.delta", "summary.delta"} -> E("reasoning.delta", n, 0)
    [] x.k \in {"reasoning.done", "summary.done"} -> E("reasoning.done", n, 0)
    [] x.k = "call.added" -> E("call.start", n, x.i)
    [] x.k = "call.delta" -> E("call.delta", n, x.i)
    [] x.k = "call.done" -> E("call.done", n, x.i)
    [] OTHER -> <<>>
TextOf(x, n) == IF x.k \in {"text.delta", "refusal.delta"} THEN <<n>> ELSE <<>>
ReasonOf(x, n) == IF x.k \in {"reasoning.delta", "summary.delta"} THEN <<n>> ELSE <<>>
\* completed output items become part of the conversation
ItemOf(x, n) == IF x.k \in {"item.message", "item.reasoning", "item.compaction", "item.other", "call.done"} THEN <<n>> ELSE <<>>

Arrive ==
  /\ end.e = "open" /\ Len(log) < MaxEvents
  /\ \E x \in (IF Sim THEN {RandomElement(Kinds)} ELSE Kinds) :
       LET n == Len(log) + 1 IN
       /\ log' = Append(log, x)
       /\ out' = [text |-> out.text \o TextOf(x, n), reason |-> out.reason \o ReasonOf(x, n), ev |-> out.ev \o EventsOf(x, n)]
       /\ items' = items \o ItemOf(x, n)
       /\ order' = IF x.k = "call.done" THEN Append(order, x.i) ELSE order
       /\ phase' = IF x.i = 0 THEN phase
                   ELSE [phase EXCEPT ![x.i] = IF x.k = "call.done" THEN 2 ELSE 1]
       /\ lens' = Append(lens, [t |-> Len(out'.text), r |-> Len(out'.reason), v |-> Len(out'.ev)])
  /\ UNCHANGED end

Runs(e, s) == e = "completed" /\ s = "no" /\ order # <<>>
Finish ==
  /\ end.e = "open" /\ (Sim => Len(log) = MaxEvents)
  /\ \E e \in Ends, s \in Stops, u \in Usages :
       /\ (e # "completed" => s = CHOOSE y \in Stops : TRUE)
       /\ (e \in {"srverr", "cut"} => u = CHOOSE y \in Usages : TRUE)
       \* without calls the run is over whatever the stop condition says
       /\ end' = [e |-> e, stop |-> s, use |-> u,
                  runs |-> Runs(e, s),
                  reason |-> CASE e = "completed" -> (IF order = <<>> THEN "stop" ELSE "tool-calls")
                               [] e = "failed" -> "error" [] e = "incomplete" -> "length" [] OTHER -> "none"]
       /\ out' = IF e \in {"srverr", "cut"} THEN out
                 ELSE [out EXCEPT !.ev = @ \o (IF Runs(e, s) THEN [j \in 1..Len(order) |-> [t |-> "result", n |-> 0, i |-> order[j]]] ELSE <<>>)
                                           \o E("step.done", 0, 0)]
  /\ UNCHANGED <<log, phase, items, order, lens>>

Next == Arrive \/ Finish
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
Ended == end.e # "open"
Is(n, S) == log[n].k \in S
NumsIn(S) == SelectSeq([n \in 1..Len(log) |-> n], LAMBDA n : Is(n, S))
\* each stream is exactly the subsequence of the server events that belong to it
Projection ==
  /\ out.text = NumsIn({"text.delta", "refusal.delta"})
  /\ out.reason = NumsIn({"reasoning.delta", "summary.delta"})
  /\ items = NumsIn({"item.message", "item.reasoning", "item.compaction", "item.other", "call.done"})
EventOrder == \A k, l \in DOMAIN out.ev : k < l /\ out.ev[k].n > 0 /\ out.ev[l].n > 0 => out.ev[k].n < out.ev[l].n
\* a call's events come as start, deltas, done, result
CallGrammar == \A k, l \in DOMAIN out.ev :
  (out.ev[k].i # 0 /\ out.ev[k].i = out.ev[l].i /\ k < l) =>
     /\ out.ev[k].t # "result"
     /\ (out.ev[k].t = "call.done" => out.ev[l].t = "result")
     /\ out.ev[l].t # "call.start"
ResultPerCall == Ended =>
  LET rs == SelectSeq(out.ev, LAMBDA e : e.t = "result") IN
  /\ [k \in DOMAIN rs |-> rs[k].i] = (IF end.runs THEN order ELSE <<>>)
  /\ (end.e # "completed" => rs = <<>>)
DoneLast == \A k \in DOMAIN out.ev : out.ev[k].t = "step.done" => k = Len(out.ev) /\ Ended

Emit == Ended => PrintT("@@" \o ToJson([log |-> log, out |-> out, items |-> items, order |-> order, end |-> end, lens |-> lens]))
===============================================================================
