------------------------------ MODULE Structured -----------------------------
(***************************************************************************)
(* Structured generation: what is asked of the server, and what becomes of *)
(* its answer: parse, validate (the elements of an array in parallel), and *)
(* return or fail.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Fns,         \* subset of {"gen", "stream"}
  Outputs,     \* subset of {"absent", "object", "array"}
  Stricts,     \* subset of {"absent", "true", "false"}
  Opts,        \* which of name and description are given: subset of {"none", "name", "desc", "both"}
  Trees,       \* schemas, as sequences of nodes [k, p, via, ap, to] (see Schema); a node of kind "ref" refers to the node `to`
  Answers,     \* subset of {"null", "empty", "refusal", "notjson", "cutjson", "value", "nolist", "listnull", "notlist", "elements"}
  Verdicts,    \* what the schema says of a value: subset of {"ok", "bad", "throw"}
  MaxElements, PreSteps, Sim

VARIABLES cfg, st, answer, verdict, finished, out, h
\* st: "asking" | "validating" | "done"; verdict[i]: of element i (or of the value); finished: indexes validated, in order of time
vars == <<cfg, st, answer, verdict, finished, out, h>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

Init ==
  /\ \E f \in Fns, o \in Outputs, s \in Stricts, x \in Opts, t \in Trees, p \in PreSteps :
       cfg = [fn |-> f, output |-> o, strict |-> s, opts |-> x, tree |-> t, pre |-> p]
  /\ st = "asking" /\ answer = "none" /\ verdict = <<>> /\ finished = <<>> /\ out = "none" /\ h = <<>>

\* which nodes of the schema are sent closed
RECURSIVE Closed(_)
Closed(i) == LET n == cfg.tree IN IF i = 1 THEN TRUE ELSE n[i].k \in {"obj", "bare"} /\ n[i].via = "prop" /\ Closed(n[i].p)
\* where a node is in the schema that is sent: the schema is the items of the wrapper's elements, or the root itself
RECURSIVE Place(_)
Place(i) == IF i = 1 THEN <<>> ELSE Append(Place(cfg.tree[i].p), i)
Where(i) == (IF cfg.output = "array" THEN <<0>> ELSE <<>>) \o Place(i)
Sent == [ refs |-> [i \in DOMAIN cfg.tree |-> IF cfg.tree[i].k = "ref" THEN Where(cfg.tree[i].to) ELSE <<>>],
          closed |-> [i \in DOMAIN cfg.tree |-> cfg.strict # "false" /\ Closed(i)],
          wrapped |-> cfg.output = "array",
          strict |-> cfg.strict # "false",
          name |-> cfg.opts \in {"name", "both"},
          description |-> cfg.opts \in {"desc", "both"} ]

List == cfg.output = "array"
\* what an answer leads to, before any validation
Readable(a) == IF List THEN a = "elements" ELSE a \in {"value", "elements", "nolist", "listnull", "notlist"}
Fits(a) == IF cfg.fn = "stream" THEN a \in {"value", "elements"} ELSE TRUE
Count(a, n) == IF List THEN n ELSE 1
Answer ==
  /\ st = "asking"
  /\ \E a \in Pick({x \in Answers : Fits(x)}) : \E n \in Pick(IF List /\ a = "elements" THEN 0..MaxElements ELSE {1}) :
     \E v \in (IF Readable(a) /\ cfg.fn = "gen" THEN [1..n -> Verdicts] ELSE {<<>>}) :
       /\ answer' = a /\ verdict' = v
       /\ st' = IF Readable(a) /\ cfg.fn = "gen" /\ n > 0 THEN "validating" ELSE "done"
       /\ out' = IF cfg.fn = "stream" THEN "streamed" ELSE IF ~Readable(a) THEN "failed" ELSE IF n = 0 THEN "object" ELSE "none"
       /\ h' = Append(h, [o |-> "answer", a |-> a, n |-> IF List /\ a = "elements" THEN n ELSE 1])
  /\ UNCHANGED <<cfg, finished>>
Range(s) == {s[i] : i \in DOMAIN s}
Validated(i) ==
  /\ st = "validating" /\ i \notin Range(finished)
  /\ finished' = Append(finished, i)
  /\ out' = IF out = "failed" \/ verdict[i] # "ok" THEN "failed" ELSE IF Len(finished') = Len(verdict) THEN "object" ELSE out
  /\ st' = IF Len(finished') = Len(verdict) THEN "done" ELSE "validating"
  /\ h' = Append(h, [o |-> "validated", i |-> i, v |-> verdict[i], out |-> out'])
  /\ UNCHANGED <<cfg, answer, verdict>>
Next == Answer \/ \E i \in DOMAIN verdict : Validated(i)
Spec == Init /\ [][Next]_vars

\* only what the schema accepted is ever returned, and everything it accepted is
OnlyValid == (cfg.fn = "gen" /\ st = "done") => (out = "object" <=> (Readable(answer) /\ \A i \in DOMAIN verdict : verdict[i] = "ok"))
Never == (answer \in {"null", "empty", "refusal", "notjson", "cutjson"}) => out \in {"failed", "streamed", "none"}
Closing == st = "done" => (Sent.closed[1] <=> Sent.strict)
\* a reference keeps its meaning: what it reaches in the schema that is sent is the node it meant
RECURSIVE Reach(_, _)
Reach(i, path) == IF path = <<>> THEN i ELSE IF Head(path) = 0 THEN Reach(i, Tail(path)) ELSE IF cfg.tree[Head(path)].p = i THEN Reach(Head(path), Tail(path)) ELSE 0
RefsKept == \A i \in DOMAIN cfg.tree : cfg.tree[i].k = "ref" => Reach(1, Sent.refs[i]) = cfg.tree[i].to /\ (Len(Sent.refs[i]) > 0 /\ Sent.refs[i][1] = 0 <=> Sent.wrapped)
Emit == st = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, h |-> h, verdict |-> verdict, out |-> out, sent |-> Sent]))
===============================================================================
