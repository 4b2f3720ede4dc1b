------------------------------- MODULE StopExpr ------------------------------
(***************************************************************************)
(* Stop conditions: expressions over the history of steps, built operand   *)
(* by operand, and their values after every step of every history.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Counts,      \* step counts asked for
  Names,       \* tool names asked for; "*" is any
  Consts,      \* subset of BOOLEAN: conditions of the caller's own
  Hists,       \* histories: sequences of steps, a step being the sequence of the tools called in it
  MaxOps, MaxArity,
  Sim

VARIABLES stack, ops, fin
vars == <<stack, ops, fin>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

Leaves == {[o |-> "count", n |-> n] : n \in Counts} \cup {[o |-> "call", nm |-> m] : m \in Names} \cup {[o |-> "const", v |-> b] : b \in Consts}
Init == stack = <<>> /\ ops = 0 /\ fin = FALSE
Push == /\ ~fin /\ ops + Len(stack) < MaxOps
        /\ \E l \in Pick(Leaves) : stack' = Append(stack, l)
        /\ ops' = ops + 1 /\ UNCHANGED fin
Combine ==
  /\ ~fin /\ ops < MaxOps
  /\ \E o \in Pick({"and", "or"}) : \E k \in Pick(0..MaxArity) :
       /\ k <= Len(stack)
       /\ stack' = Append(SubSeq(stack, 1, Len(stack) - k), [o |-> o, xs |-> SubSeq(stack, Len(stack) - k + 1, Len(stack))])
  /\ ops' = ops + 1 /\ UNCHANGED fin
Negate ==
  /\ ~fin /\ ops < MaxOps /\ stack # <<>>
  /\ stack' = [stack EXCEPT ![Len(stack)] = [o |-> "not", x |-> @]]
  /\ ops' = ops + 1 /\ UNCHANGED fin
End == ~fin /\ Len(stack) = 1 /\ (Sim => ops > 3) /\ fin' = TRUE /\ UNCHANGED <<stack, ops>>
Next == Push \/ Combine \/ Negate \/ End
Spec == Init /\ [][Next]_vars

RECURSIVE Value(_, _)
\* after the last step of h
Value(e, h) ==
  CASE e.o = "count" -> Len(h) >= e.n
    [] e.o = "call" -> \E i \in DOMAIN h[Len(h)] : e.nm = "*" \/ h[Len(h)][i] = e.nm
    [] e.o = "const" -> e.v
    [] e.o = "and" -> \A i \in DOMAIN e.xs : Value(e.xs[i], h)
    [] e.o = "or" -> \E i \in DOMAIN e.xs : Value(e.xs[i], h)
    [] e.o = "not" -> ~Value(e.x, h)
\* the step at which a run stops: the condition holds, or nothing was called; all of h is available
StopsAt(e, h) == CHOOSE i \in 1..Len(h) :
  /\ (Value(e, SubSeq(h, 1, i)) \/ h[i] = <<>> \/ i = Len(h))
  /\ \A j \in 1..(i - 1) : ~Value(e, SubSeq(h, 1, j)) /\ h[j] # <<>>

\* the connectives are those of boolean algebra
RECURSIVE Nnf(_, _)
Nnf(e, neg) ==
  CASE e.o = "not" -> Nnf(e.x, ~neg)
    [] e.o \in {"and", "or"} -> [o |-> IF neg THEN (IF e.o = "and" THEN "or" ELSE "and") ELSE e.o, xs |-> [i \in DOMAIN e.xs |-> Nnf(e.xs[i], neg)]]
    [] OTHER -> IF neg THEN [o |-> "not", x |-> e] ELSE e
DeMorgan == fin => \A h \in Hists : Value(stack[1], h) = Value(Nnf(stack[1], FALSE), h)

RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
HS == AsSeq(Hists)
Emit == fin => PrintT("@@" \o ToJson([e |-> stack[1], ops |-> ops,
          table |-> [k \in DOMAIN HS |-> [h |-> HS[k], v |-> Value(stack[1], HS[k]), at |-> StopsAt(stack[1], HS[k])]]]))
===============================================================================
