------------------------------- MODULE Vendors -------------------------------
(***************************************************************************)
(* Types a user can write in any of the supported schema libraries, values *)
(* that deviate from them in up to MaxDevs places, and the meaning: which  *)
(* values are acceptable as input and which defaults are filled in.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,     \* "str" "num" "bool" "enum" "either" (boolean or number) "conv" (text, converted to a number) "list" "obj" "maybe" (nullable)
          Presence,  \* of a property: subset of {"req", "opt", "default"}
          MaxNodes, MaxProps, MaxDevs, Sim

VARIABLES nodes, devs, pc
vars == <<nodes, devs, pc>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

\* nodes[i] = [k, p: parent, q: presence]
Inner(k) == k \in {"obj", "list", "maybe"}
Children(i) == {j \in DOMAIN nodes : nodes[j].p = i}
Room(i) == Cardinality(Children(i)) < (IF nodes[i].k = "obj" THEN MaxProps ELSE 1)
Init == nodes = <<[k |-> "obj", p |-> 0, q |-> "req"]>> /\ devs = {} /\ pc = "grow"
\* only the last node and its ancestors grow, so that every tree is built once
RECURSIVE Up(_)
Up(i) == IF i = 0 THEN {} ELSE {i} \cup Up(nodes[i].p)
Spots == {i \in Up(Len(nodes)) : Inner(nodes[i].k) /\ Room(i)}
Needy == {i \in DOMAIN nodes : Inner(nodes[i].k) /\ Children(i) = {}}
Add ==
  /\ pc = "grow" /\ (Len(nodes) < MaxNodes \/ Needy # {}) /\ Spots # {}
  /\ \E i \in Pick(IF Needy # {} THEN Needy ELSE Spots) :
     \E k \in Pick({x \in Kinds : (nodes[i].k = "maybe" => x # "maybe") /\ (Len(nodes) >= MaxNodes - 1 => ~Inner(x))}) :
     \E q \in Pick(IF nodes[i].k = "obj" THEN (IF Inner(k) THEN Presence \ {"default"} ELSE Presence) ELSE {"req"}) :
       nodes' = Append(nodes, [k |-> k, p |-> i, q |-> q])
  /\ UNCHANGED <<devs, pc>>
Grown ==
  /\ pc = "grow" /\ Needy = {} /\ (Sim => (Len(nodes) >= MaxNodes - 1 \/ Spots = {} \/ RandomElement(1 .. 8) = 1))
  /\ pc' = "dev" /\ UNCHANGED <<nodes, devs>>

\* what can be different at a node: "wrong" (a value no type has), "null", "missing" (a property), "empty" (a list), "other" (the other alternative)
Can(i) == {"wrong", "null"} \cup (IF i > 1 /\ nodes[nodes[i].p].k = "obj" THEN {"missing"} ELSE {})
          \cup (IF nodes[i].k = "list" THEN {"empty"} ELSE {}) \cup (IF nodes[i].k \in {"enum", "either"} THEN {"other"} ELSE {})
Last == IF devs = {} THEN 0 ELSE CHOOSE m \in {d.i : d \in devs} : \A d \in devs : d.i <= m
Left == {j \in DOMAIN nodes : j > Last}
Deviate ==
  /\ pc = "dev" /\ Cardinality(devs) < MaxDevs /\ Left # {}
  /\ \E i \in Pick(Left) : \E w \in Pick(Can(i)) : devs' = devs \cup {[i |-> i, w |-> w]}
  /\ UNCHANGED <<nodes, pc>>
End == pc = "dev" /\ pc' = "end" /\ UNCHANGED <<nodes, devs>>
Next == Add \/ Grown \/ Deviate \/ End
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
\* a deviation counts only if the place still exists: nothing above it is replaced or absent
There(d) == ~\E e \in devs : e.i \in Up(nodes[d.i].p) /\ e.w \in {"wrong", "null", "missing", "empty"}
\* a nullable value is null in its place or below it
Allowed(d) ==
  CASE d.w = "wrong" -> FALSE
    [] d.w = "null" -> nodes[d.i].k = "maybe" \/ (d.i > 1 /\ nodes[nodes[d.i].p].k = "maybe")
    [] d.w = "missing" -> nodes[d.i].q # "req"
    [] OTHER -> TRUE
Accepts == \A d \in devs : There(d) => Allowed(d)
Filled == {d.i : d \in {e \in devs : There(e) /\ e.w = "missing" /\ nodes[e.i].q = "default"}}

Canonical == devs = {} => Accepts
\* what is absent does not matter below
Masked == pc = "end" => \A d \in devs : d.w = "missing" /\ There(d) /\ nodes[d.i].q # "req" => (Accepts <=> (\A e \in devs : (There(e) /\ d.i \notin Up(e.i)) => Allowed(e)))
Fills == \A i \in Filled : nodes[i].q = "default"

Emit == pc = "end" => PrintT("@@" \o ToJson([nodes |-> nodes, devs |-> devs, accepts |-> Accepts, filled |-> Filled]))
==============================================================================
