------------------------------ MODULE Simulate -------------------------------
(***************************************************************************)
(* The simulated stream under a virtual clock: chunk i comes after the     *)
(* initial delay (i = 1) or one chunk delay after its predecessor; the     *)
(* stream closes with the last one. A reader may cancel at any time.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Counts, Initials, Delays, Cancels
VARIABLES cfg, now, got, st, h
vars == <<cfg, now, got, st, h>>
Init ==
  /\ \E n \in Counts, i \in Initials, d \in Delays : cfg = [n |-> n, initial |-> i, delay |-> d]
  /\ now = 0 /\ got = 0 /\ h = <<>>
  /\ st = IF cfg.n = 0 THEN "closed" ELSE "open"
Waited == IF h = <<>> THEN FALSE ELSE h[Len(h)].o = "before"
Due == IF got = 0 THEN cfg.initial ELSE now + cfg.delay
Log(x) == h' = Append(h, x @@ [now |-> now', got |-> got', st |-> st'])
Before ==
  /\ st = "open" /\ Due > now + 1 /\ ~Waited
  /\ now' = Due - 1 /\ UNCHANGED <<cfg, got, st>> /\ Log([o |-> "before"])
Last == IF Waited THEN now + 1 ELSE Due
Chunk ==
  /\ st = "open" /\ now' = Last /\ got' = got + 1
  /\ st' = IF got' = cfg.n THEN "closed" ELSE "open"
  /\ UNCHANGED cfg /\ Log([o |-> "chunk"])
Cancel ==
  /\ Cancels /\ st = "open" /\ st' = "cancelled" /\ UNCHANGED <<cfg, now, got>> /\ Log([o |-> "cancel"])
Next == Before \/ Chunk \/ Cancel
Spec == Init /\ [][Next]_vars
Times == {h[i].now : i \in {j \in DOMAIN h : h[j].o = "chunk"}}
OnTime == \A i \in DOMAIN h : h[i].o = "chunk" => h[i].now = cfg.initial + (h[i].got - 1) * cfg.delay
Emit == (st # "open") => PrintT("@@" \o ToJson([cfg |-> cfg, h |-> h]))
===============================================================================
