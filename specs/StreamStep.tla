------------------------------ MODULE StreamStep ------------------------------
(***************************************************************************)
(* One step of a streaming chat: an arbitrary sequence of chunks arrives   *)
(* one by one; what is put on the output streams, and what the step        *)
(* finally consists of.  Texts are named by their position: chunk number,  *)
(* and fragment number for tool calls.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  MaxChunks,
  Contents,    \* subset of {"none", "text", "empty", "null", "refusal"}
  Reasonings,  \* subset of {"none", "text", "empty", "null"}
  Indices,     \* positions of tool calls, e.g. {0, 1, 3}
  Pieces,      \* subset of {"piece", "empty", "absent"}: the arguments of a fragment
  MaxFrags,    \* fragments per chunk
  Finishes,    \* subset of {"none", "a", "b"}
  Usages,      \* subset of {"none", "a", "b"}
  Choices,     \* subset of {"one", "empty", "missing"}: chunks without choices carry at most usage
  Sim          \* draw one chunk at random

VARIABLES chunks, txt, rsn, calls, fin, use, evs, lens, pc
vars == <<chunks, txt, rsn, calls, fin, use, evs, lens, pc>>

Frags == [i : Indices, a : Pieces]
FragSeqs == UNION {[1..k -> Frags] : k \in 0..MaxFrags}
\* a chunk names each call at most once
Chunk ==
  {[ch |-> "one", c |-> c, g |-> g, fr |-> fr, f |-> f, u |-> u] :
      c \in Contents, g \in Reasonings, fr \in {s \in FragSeqs : \A x, y \in DOMAIN s : x # y => s[x].i # s[y].i}, f \in Finishes, u \in Usages}
  \cup {[ch |-> ch, c |-> "none", g |-> "none", fr |-> <<>>, f |-> "none", u |-> u] : ch \in Choices \ {"one"}, u \in Usages}
ChunkSet == {x \in Chunk : x.ch \in Choices}

Init ==
  /\ chunks = <<>> /\ txt = <<>> /\ rsn = <<>> /\ calls = [i \in {} |-> <<>>]
  /\ fin = "none" /\ use = "none" /\ evs = <<[t |-> "step.start"]>> /\ lens = <<>> /\ pc = "open"

\* An empty content next to tool calls carries no text.
HasText(x) == x.c = "text" \/ x.c = "refusal" \/ (x.c = "empty" /\ x.fr = <<>>)
HasReason(x) == x.g \in {"text", "empty"}

RECURSIVE AddFrags(_, _, _, _)
AddFrags(cs, es, n, j) ==
  LET x == chunks'[n] IN
  IF j > Len(x.fr) THEN <<cs, es>>
  ELSE LET f == x.fr[j]
           new == f.i \notin DOMAIN cs
           piece == IF f.a = "piece" THEN <<[n |-> n, j |-> j]>> ELSE <<>>
           cs2 == IF new THEN [k \in DOMAIN cs \cup {f.i} |-> IF k = f.i THEN [first |-> [n |-> n, j |-> j], p |-> piece] ELSE cs[k]]
                  ELSE [cs EXCEPT ![f.i].p = @ \o piece]
           es2 == es \o (IF new THEN <<[t |-> "call.start", i |-> f.i]>> ELSE <<>>)
                     \o (IF f.a = "piece" THEN <<[t |-> "call.delta", n |-> n, j |-> j]>> ELSE <<>>)
       IN AddFrags(cs2, es2, n, j + 1)

Arrive ==
  /\ pc = "open" /\ Len(chunks) < MaxChunks
  /\ \E x \in (IF Sim THEN {RandomElement(ChunkSet)} ELSE ChunkSet) :
       LET n == Len(chunks) + 1
           e1 == evs \o (IF ~HasReason(x) THEN <<>>
                         ELSE (IF rsn = <<>> THEN <<[t |-> "reasoning.start"]>> ELSE <<>>) \o <<[t |-> "reasoning.delta", n |-> n]>>)
           e2 == e1 \o (IF ~HasText(x) THEN <<>>
                        ELSE (IF txt = <<>> THEN <<[t |-> "text.start"]>> ELSE <<>>) \o <<[t |-> "text.delta", n |-> n]>>)
       IN /\ chunks' = Append(chunks, x)
          /\ rsn' = IF HasReason(x) THEN Append(rsn, n) ELSE rsn
          /\ txt' = IF HasText(x) THEN Append(txt, n) ELSE txt
          /\ LET r == AddFrags(calls, e2, n, 1) IN calls' = r[1] /\ evs' = r[2]
          /\ fin' = IF x.f # "none" THEN x.f ELSE fin
          /\ use' = IF x.u # "none" THEN x.u ELSE use
          /\ lens' = Append(lens, [t |-> Len(txt'), r |-> Len(rsn'), v |-> Len(evs')])
  /\ UNCHANGED pc

\* indices in ascending order
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Sorted(s \ {m})
Order == Sorted(DOMAIN calls)

Close ==
  /\ pc = "open" /\ pc' = "closed"
  /\ (Sim => Len(chunks) = MaxChunks)
  /\ evs' = evs
       \o (IF rsn # <<>> THEN <<[t |-> "reasoning.done"]>> ELSE <<>>)
       \o (IF txt # <<>> THEN <<[t |-> "text.done"]>> ELSE <<>>)
       \o [k \in 1..Len(Order) |-> [t |-> "call.done", i |-> Order[k]]]
       \o [k \in 1..Len(Order) |-> [t |-> "result", i |-> Order[k]]]
       \o <<[t |-> "step.done"]>>
  /\ UNCHANGED <<chunks, txt, rsn, calls, fin, use, lens>>

Next == Arrive \/ Close
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
\* C08: nothing lost, duplicated or reordered
IdxSeq(P(_)) == SelectSeq([n \in 1..Len(chunks) |-> n], P)
TextLossless == txt = IdxSeq(LAMBDA n : chunks[n].c \in {"text", "refusal"} \/ (chunks[n].c = "empty" /\ chunks[n].fr = <<>>))
ReasonLossless == rsn = IdxSeq(LAMBDA n : chunks[n].g \in {"text", "empty"})
AllFrags == {<<n, j>> \in (1..Len(chunks)) \X (1..MaxFrags) : j <= Len(chunks[n].fr)}
Pos(n, j) == n * (MaxFrags + 1) + j
CallsLossless ==
  /\ DOMAIN calls = {chunks[f[1]].fr[f[2]].i : f \in AllFrags}
  /\ \A i \in DOMAIN calls :
       /\ {<<p.n, p.j>> : p \in {calls[i].p[k] : k \in DOMAIN calls[i].p}}
          = {f \in AllFrags : chunks[f[1]].fr[f[2]].i = i /\ chunks[f[1]].fr[f[2]].a = "piece"}
       /\ \A k, l \in DOMAIN calls[i].p : k < l => Pos(calls[i].p[k].n, calls[i].p[k].j) < Pos(calls[i].p[l].n, calls[i].p[l].j)
       /\ \A f \in AllFrags : chunks[f[1]].fr[f[2]].i = i => Pos(calls[i].first.n, calls[i].first.j) <= Pos(f[1], f[2])
\* C09: grammar
Times(e) == Cardinality({k \in DOMAIN evs : evs[k] = e})
First(P(_)) == CHOOSE k \in DOMAIN evs : P(evs[k]) /\ \A l \in 1..(k - 1) : ~P(evs[l])
Grammar ==
  /\ Times([t |-> "step.start"]) = 1 /\ evs[1].t = "step.start"
  /\ Times([t |-> "text.start"]) = (IF txt = <<>> THEN 0 ELSE 1)
  /\ Times([t |-> "reasoning.start"]) = (IF rsn = <<>> THEN 0 ELSE 1)
  /\ \A i \in DOMAIN calls : Times([t |-> "call.start", i |-> i]) = 1
  /\ \A k \in DOMAIN evs : evs[k].t = "text.delta" => \E l \in 1..(k - 1) : evs[l].t = "text.start"
  /\ \A k \in DOMAIN evs : evs[k].t = "reasoning.delta" => \E l \in 1..(k - 1) : evs[l].t = "reasoning.start"
  /\ pc = "closed" =>
       /\ evs[Len(evs)].t = "step.done" /\ Times([t |-> "step.done"]) = 1
       /\ Times([t |-> "text.done"]) = Times([t |-> "text.start"])
       /\ \A i \in DOMAIN calls : Times([t |-> "call.done", i |-> i]) = 1 /\ Times([t |-> "result", i |-> i]) = 1

Emit == pc = "closed" => PrintT("@@" \o ToJson(
  [chunks |-> chunks, txt |-> txt, rsn |-> rsn, order |-> Order, calls |-> [k \in 1..Len(Order) |-> calls[Order[k]]],
   fin |-> fin, use |-> use, evs |-> evs, lens |-> lens]))
===============================================================================
