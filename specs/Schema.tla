-------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* JSON schemas as trees, built node by node, and the set of nodes that a  *)
(* strict version closes: the root, and every object that is a property of *)
(* a closed one.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Roots,     \* kinds the root may have
  Kinds,     \* kinds of nodes: "obj" (type object), "list" (array of its child), "any" (alternatives), "maybe" (object or null),
             \* "deps" (object under another keyword), "leaf", "bool" (the schema true), "bare" (type object without properties)
  Extras,    \* what an object says of additional properties by itself: subset of {"none", "true", "false", "schema"}
  MaxNodes, MaxProps,
  Sim

VARIABLES nodes, fin
\* nodes[i] = [k, p: parent, via: "prop" | "item" | "alt" | "def", ap]
vars == <<nodes, fin>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

Via(k) == CASE k \in {"obj", "maybe"} -> {"prop", "def"} [] k = "list" -> {"item"} [] k = "any" -> {"alt"} [] OTHER -> {}
Children(i, v) == {j \in DOMAIN nodes : nodes[j].p = i /\ nodes[j].via = v}
\* nodes are added below the last ones first, so that every tree is built in one order only
Init == \E k \in Roots, a \in Extras : nodes = <<[k |-> k, p |-> 0, via |-> "root", ap |-> a]>> /\ fin = FALSE
Spots ==
  {x \in (nodes[Len(nodes)].p..Len(nodes)) \X {"prop", "def", "item", "alt"} :
     /\ x[1] > 0
     /\ x[2] \in Via(nodes[x[1]].k)
     /\ Cardinality(Children(x[1], x[2])) < (IF x[2] \in {"item", "def"} THEN 1 ELSE MaxProps)}
Add ==
  /\ ~fin /\ Len(nodes) < MaxNodes /\ Spots # {}
  /\ \E x \in Pick(Spots), k \in Pick(Kinds) : \E a \in Pick(IF k \in {"obj", "bare", "maybe"} THEN Extras ELSE {"none"}) :
       nodes' = Append(nodes, [k |-> k, p |-> x[1], via |-> x[2], ap |-> a])
  /\ UNCHANGED fin
End ==
  /\ ~fin
  /\ IF Sim THEN IF Len(nodes) >= MaxNodes THEN TRUE ELSE IF Spots = {} THEN TRUE ELSE RandomElement(1..20) = 1 ELSE TRUE
  /\ fin' = TRUE /\ UNCHANGED nodes
Next == Add \/ End
Spec == Init /\ [][Next]_vars

IsObject(i) == nodes[i].k \in {"obj", "bare"}
RECURSIVE Closed(_)
Closed(i) == IF i = 1 THEN TRUE ELSE IsObject(i) /\ nodes[i].via = "prop" /\ Closed(nodes[i].p)
\* every object that can be reached from the root through object properties alone is closed, and nothing else but the root
RECURSIVE Path(_)
Path(i) == IF i = 1 THEN {} ELSE {nodes[i].via} \cup Path(nodes[i].p)
RECURSIVE ObjectsOnly(_)
ObjectsOnly(i) == IsObject(i) /\ (i = 1 \/ ObjectsOnly(nodes[i].p))
Reachable == IsObject(1) => \A i \in DOMAIN nodes : (ObjectsOnly(i) /\ Path(i) \subseteq {"prop"}) => Closed(i)
OnlyThose == \A i \in DOMAIN nodes : (i > 1 /\ Closed(i)) => (nodes[i].k \in {"obj", "bare"} /\ Path(i) = {"prop"})

Emit == fin => PrintT("@@" \o ToJson([nodes |-> nodes, closed |-> [i \in DOMAIN nodes |-> Closed(i)]]))
===============================================================================
