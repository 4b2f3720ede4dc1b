------------------------------- MODULE Images -------------------------------
(***************************************************************************)
(* Image generation: the answer lists images, some inline, some as links   *)
(* which are downloaded at the same time and finish in any order, or fail, *)
(* or are aborted; the call settles once, with every image in its place.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,      \* subset of {"inline", "link", "both", "neither"}
          Asks,       \* subset of {"ok", "net", "http", "empty", "badjson"}
          Heads,      \* how a download starts: subset of {"ok", "net", "http", "empty"}
          Bodies,     \* how its body ends: subset of {"ok", "cut"}
          Aborts,     \* subset of {"wait", "load"}: when the user may abort
          MaxImages, Sim

VARIABLES pc, h, items, dl, out, err
vars == <<pc, h, items, dl, out, err>>

Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X
Idx == 1 .. Len(items)
\* downloads: "none" | "asked" | "loading" | "ok" | "failed"
Entry(o, i, k) == [o |-> o, i |-> i, k |-> k, out |-> out, err |-> err]
Log(o, i, k) == h' = Append(h, [Entry(o, i, k) EXCEPT !.out = out', !.err = err'])

Init == /\ pc = "ask" /\ h = <<>> /\ dl = <<>> /\ out = "pending" /\ err = ""
        /\ items \in UNION {[1 .. n -> Kinds] : n \in 1 .. MaxImages}

Ready(d) == \A i \in Idx : d[i] \in {"none", "ok"}
Fail(e) == out' = (IF out = "pending" THEN "failed" ELSE out) /\ err' = (IF out = "pending" THEN e ELSE err)

Ask ==
  /\ pc = "ask"
  /\ \E k \in Pick(Asks \cup (IF "wait" \in Aborts THEN {"abort"} ELSE {})) :
       IF k = "ok" THEN
         /\ dl' = [i \in Idx |-> IF items[i] = "link" THEN "asked" ELSE "none"]
         \* an item without an image fails the call, the downloads that are under way are of no use
         /\ IF \E i \in Idx : items[i] = "neither" THEN Fail("neither") /\ pc' = "load"
            ELSE IF Ready(dl') THEN out' = "done" /\ err' = err /\ pc' = "end"
            ELSE UNCHANGED <<out, err>> /\ pc' = "load"
         /\ items' = items
         /\ Log("ask", 0, k)
       ELSE /\ Fail(k) /\ pc' = "end" /\ UNCHANGED <<dl, items>> /\ Log("ask", 0, k)

Fates == [o : {"head"}, k : Heads] \cup [o : {"body"}, k : Bodies]
Load ==
  /\ pc = "load"
  /\ \E i \in Idx : \E f \in Fates :
       /\ dl[i] = (IF f.o = "head" THEN "asked" ELSE "loading")
       /\ dl' = [dl EXCEPT ![i] = IF f.k # "ok" THEN "failed" ELSE IF f.o = "head" THEN "loading" ELSE "ok"]
       /\ IF f.k # "ok" THEN Fail(f.k \o ToString(i))
          ELSE IF Ready(dl') /\ out = "pending" THEN out' = "done" /\ err' = err
          ELSE UNCHANGED <<out, err>>
       /\ pc' = IF \A j \in Idx : dl'[j] \in {"none", "ok", "failed"} THEN "end" ELSE "load"
       /\ items' = items
       /\ Log(f.o, i, f.k)
\* the user gives up: every download under way is given up
Abort ==
  /\ pc = "load" /\ "load" \in Aborts /\ out = "pending"
  /\ (Sim => RandomElement(1 .. 6) = 1)
  /\ dl' = [i \in Idx |-> IF dl[i] \in {"asked", "loading"} THEN "failed" ELSE dl[i]]
  /\ Fail("abort") /\ pc' = "end" /\ items' = items
  /\ Log("abort", 0, "")

Next == Ask \/ Load \/ Abort
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
\* every image is there when the call succeeds, and nothing less
AllOrNothing == out = "done" => \A i \in Idx : items[i] # "neither" /\ (items[i] = "link" => dl[i] = "ok")
\* a failure anywhere fails the call
NoSilentLoss == (pc = "end" /\ dl # <<>> /\ \E i \in Idx : dl[i] = "failed" \/ items[i] = "neither") => out = "failed"
Settled == pc = "end" => out # "pending"
FirstFailureWins == (out = "failed") <=> (err # "")
SettlesOnce == [][out # "pending" => out' = out /\ err' = err]_vars

Emit == pc = "end" => PrintT("@@" \o ToJson([h |-> h, items |-> items, out |-> out, err |-> err]))
==============================================================================
