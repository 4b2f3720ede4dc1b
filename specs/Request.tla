------------------------------- MODULE Request -------------------------------
(***************************************************************************)
(* What a call sends, as a function of what was configured, for a history  *)
(* of calls that share parts of their configuration.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Endpoints, Bases, Keys, Heads, Fetches, Signals,   \* how a call may be configured
  FormOf, GetOf,   \* [Endpoints -> BOOLEAN]: multipart endpoints, endpoints without a body
  ValueKinds,      \* "null", "false", "zero", "empty", "list", "nested", "text", "undefined"
  MaxOpts,         \* further options per call
  MaxCalls, Sim

VARIABLES calls, h
vars == <<calls, h>>

\* names of further options: client-side ones are never sent
OptNames == {"o1", "o2", "o3"}
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X
Opts == {f \in [OptNames -> ValueKinds \cup {"absent"}] : Cardinality({n \in OptNames : f[n] # "absent"}) <= MaxOpts}

Configs == [ep : Endpoints, base : Bases, key : Keys, head : Heads, fetch : Fetches, signal : Signals]

\* the authorization that goes out
Auth(c) ==
  CASE c.head \in {"auth", "AUTH", "instauth"} -> "custom"      \* the caller's own header wins
    [] c.key \in {"key", "empty"} -> "bearer"
    [] OTHER -> "none"
\* the content type that goes out
Ctype(c) ==
  CASE c.head \in {"ctype", "CTYPE", "instctype"} -> "custom"
    [] GetOf[c.ep] \/ FormOf[c.ep] -> "none"                     \* a form carries its own boundary
    [] OTHER -> "json"
Extra(c) == c.head \notin {"none", "blank"}
\* which of the further options appear in the body
Fields(c, o) == IF FormOf[c.ep] \/ GetOf[c.ep] THEN {} ELSE {n \in OptNames : o[n] \notin {"absent", "undefined"}}
Sent(c, o) == [auth |-> Auth(c), ctype |-> Ctype(c), extra |-> Extra(c), fields |-> Fields(c, o), body |-> ~GetOf[c.ep], via |-> c.fetch]

Init == calls = <<>> /\ h = <<>>

\* keep = which configuration is reused: the same object as for the previous call ("same"), or a new one
Call ==
  /\ Len(calls) < MaxCalls
  /\ \E e \in Pick(Endpoints), b \in Pick(Bases), k \in Pick(Keys), hd \in Pick(Heads), f \in Pick(Fetches), s \in Pick(Signals), o \in Pick(Opts), keep \in (IF calls = <<>> THEN {"new"} ELSE Pick({"new", "same"})) :
       LET c == IF keep = "same"
                THEN [calls[Len(calls)] EXCEPT !.ep = e]     \* same shared object, other endpoint
                ELSE [ep |-> e, base |-> b, key |-> k, head |-> hd, fetch |-> f, signal |-> s]
       IN
       /\ (keep = "same" /\ ~Sim) => (b = c.base /\ k = c.key /\ hd = c.head /\ f = c.fetch /\ s = c.signal)
       /\ calls' = Append(calls, c)
       /\ h' = Append(h, [cfg |-> c, opts |-> o, keep |-> keep, sent |-> Sent(c, o)])

Next == Call
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
\* a bearer token goes out exactly when a key is given and the caller did not set the header
Bearer == \A i \in DOMAIN h : (h[i].sent.auth = "bearer") <=> (h[i].cfg.key \in {"key", "empty"} /\ h[i].cfg.head \notin {"auth", "AUTH", "instauth"})
Defined == \A i \in DOMAIN h : ~(FormOf[h[i].cfg.ep] \/ GetOf[h[i].cfg.ep]) =>
  \A n \in OptNames : n \in h[i].sent.fields <=> h[i].opts[n] \in ValueKinds \ {"undefined"}
\* what is sent depends on the configuration of that call alone
Independent == \A i, j \in DOMAIN h : (h[i].cfg = h[j].cfg /\ h[i].opts = h[j].opts) => h[i].sent = h[j].sent

Emit == Len(calls) = MaxCalls => PrintT("@@" \o ToJson(h))
===============================================================================
