------------------------------- MODULE Elements ------------------------------
(***************************************************************************)
(* A JSON answer arriving token by token, and what a streamed object must  *)
(* make of it: an array answer lets out element after element, an object   *)
(* answer a growing snapshot. `log` holds, per token, the value formed by  *)
(* what has arrived completely, the number of complete elements and the    *)
(* number of elements that have begun.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Modes,        \* subset of {"array", "object"}
  Scalars,      \* subset of {"num", "str", "lit"}
  MaxTokens, MaxDepth,
  Ends,         \* subset of {"close", "cut", "error"}
  Sim

VARIABLES mode, stack, toks, log, fin
\* stack: containers being filled, outermost first: [t, items: <<key, value>>..., key: the key that waits for its value]
vars == <<mode, stack, toks, log, fin>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

New(t) == [t |-> t, items |-> <<>>, key |-> 0]
Leaf(t, i) == [t |-> t, i |-> i, items |-> <<>>]
Value(c) == [t |-> c.t, i |-> 0, items |-> c.items]
\* puts a value into the innermost container
Put(st, v) == [st EXCEPT ![Len(st)] = [@ EXCEPT !.items = Append(@, <<st[Len(st)].key, v>>), !.key = 0]]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
RECURSIVE Fold(_)
\* the value formed by what has arrived, as if everything open were closed now
Fold(st) == IF Len(st) = 1 THEN Value(st[1]) ELSE Fold(Put(Pop(st), Value(st[Len(st)])))
Top == stack[Len(stack)]
\* may a value (or a key) stand here
WantsKey == Top.t = "obj" /\ Top.key = 0
WantsValue == Top.t = "arr" \/ Top.key # 0

Root == IF mode = "array" THEN 2 ELSE 1
\* elements of the array answer
Begun(st) == IF mode = "object" THEN 0 ELSE Len(st[2].items) + (IF Len(st) > 2 THEN 1 ELSE 0)
Whole(st) == IF mode = "object" THEN 0 ELSE Len(st[2].items)

Init ==
  /\ mode \in Modes
  /\ stack = IF mode = "array" THEN <<[New("obj") EXCEPT !.key = -1], New("arr")>> ELSE <<New("obj")>>
  /\ toks = <<>> /\ log = <<>> /\ fin = "open"

Step(t, st) ==
  /\ toks' = Append(toks, t)
  /\ stack' = st
  /\ log' = Append(log, [have |-> IF mode = "object" THEN Fold(st) ELSE [t |-> "none"], begun |-> Begun(st), whole |-> Whole(st)])
  /\ UNCHANGED <<mode, fin>>
Room == Len(toks) + (Len(stack) - Root) < MaxTokens
N == Len(toks) + 1
Choices ==
  (IF WantsKey /\ Room THEN {"key"} ELSE {})
  \cup (IF WantsValue /\ Room THEN Scalars ELSE {})
  \cup (IF WantsValue /\ Room /\ Len(stack) < MaxDepth THEN {"{", "["} ELSE {})
  \cup (IF Len(stack) > Root /\ Top.key = 0 THEN {"close"} ELSE {})
Token ==
  /\ fin = "open" /\ Choices # {}
  /\ \E k \in Pick(Choices) :
       CASE k = "key" -> Step([k |-> "key", i |-> Len(Top.items) + 1], [stack EXCEPT ![Len(stack)].key = Len(Top.items) + 1])
         [] k = "{" -> Step([k |-> "{", i |-> 0], Append(stack, New("obj")))
         [] k = "[" -> Step([k |-> "[", i |-> 0], Append(stack, New("arr")))
         [] k = "close" -> Step([k |-> IF Top.t = "obj" THEN "}" ELSE "]", i |-> 0], Put(Pop(stack), Value(Top)))
         [] OTHER -> Step([k |-> k, i |-> N], Put(stack, Leaf(k, N)))
End ==
  /\ fin = "open" /\ (Sim => Len(toks) > 4 /\ (Choices = {} \/ RandomElement(1..8) = 1))
  /\ \E e \in Ends :
       /\ (e = "close") => (Len(stack) = Root /\ Top.key = 0)
       /\ (e # "close") => toks # <<>>
       /\ fin' = e
  /\ UNCHANGED <<mode, stack, toks, log>>
Next == Token \/ End
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
RECURSIVE Partial(_, _)
\* p is what v was at some moment of its arrival
Partial(p, v) ==
  /\ p.t = v.t /\ p.i = v.i /\ Len(p.items) <= Len(v.items)
  /\ \A k \in DOMAIN p.items :
       /\ p.items[k][1] = v.items[k][1]
       /\ IF k < Len(p.items) THEN p.items[k][2] = v.items[k][2] ELSE Partial(p.items[k][2], v.items[k][2])
\* snapshots only grow: each is a partial version of all later ones
Converging == mode = "object" => \A k \in DOMAIN log : Partial(log[k].have, log[Len(log)].have)
Ordered == \A k \in DOMAIN log : log[k].whole <= log[k].begun /\ log[k].begun <= log[k].whole + 1 /\ (k > 1 => log[k - 1].whole <= log[k].whole)
\* an element is complete once its successor has begun
Successor == \A k \in DOMAIN log : log[k].begun > 0 => log[k].whole >= log[k].begun - 1

Emit == (fin # "open") => PrintT("@@" \o ToJson([mode |-> mode, toks |-> toks, log |-> log, fin |-> fin,
          final |-> IF mode = "array" THEN Value(stack[2]) ELSE Fold(stack)]))
===============================================================================
