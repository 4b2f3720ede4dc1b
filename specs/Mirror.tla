------------------------------- MODULE Mirror -------------------------------
(***************************************************************************)
(* Two lanes of the same library function, plain ("p") and instrumented    *)
(* ("t"), in front of the same environment: the server's answers, the      *)
(* values validators and tools produce (also such without a JSON form),    *)
(* the user's hooks.  Each lane has its own state and takes its steps      *)
(* itself; the instrumented one additionally turns inputs, results and     *)
(* usage into attributes.  What a user can see of one must be what can be  *)
(* seen of the other.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Ops,        \* subset of {"gen", "stream", "embed", "embedMany"}
          Given,      \* tools option: subset of {"absent", "undefined", "empty", "some", "frozen"}
          Shapes,     \* answers: subset of {"text", "null", "missing", "parts", "nomessage", "nochoices", "http", "net"}
          Usages,     \* subset of {"full", "absent", "null", "partial"}
          Ins, Outs,  \* value kinds
          Posts,      \* subset of {"none", "repair"}
          MaxCalls, MaxSteps, Sim

VARIABLES op, given, script, lane
vars == <<op, given, script, lane>>

NoJson == {"bigint", "cyclic", "tojson"}
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X
Calls == [in : Ins, out : Outs, post : Posts]
RECURSIVE SeqsOf(_, _)
SeqsOf(X, m) == IF m = 0 THEN {<<>>} ELSE {<<>>} \cup {<<x>> \o s : x \in X, s \in SeqsOf(X, m - 1)}
RandCalls == LET m == RandomElement(0..MaxCalls)
             IN {[i \in 1..m |-> [in |-> RandomElement(Ins), out |-> RandomElement(Outs), post |-> RandomElement(Posts)]]}

\* calls of the last step are not run: one representative suffices
LastCalls == {<<>>, <<CHOOSE c \in Calls : TRUE>>}

Lanes == {"p", "t"}
Fresh == [steps |-> 0, vis |-> <<>>, end |-> "", attrs |-> <<>>]
Init == /\ op \in Pick(Ops)
        /\ given \in IF op \in {"gen", "stream"} THEN Pick(Given) ELSE {"absent"}
        /\ script = <<>> /\ lane = [l \in Lanes |-> Fresh]

Chat == op \in {"gen", "stream"}
HasTools == given \in {"some", "frozen"}
Fails(sh) == sh \in {"nomessage", "nochoices", "http", "net"}
\* the environment answers the next request
Answer ==
  /\ Len(script) < MaxSteps
  /\ \A l \in Lanes : lane[l].end = "" /\ lane[l].steps = Len(script)
  /\ \E sh \in Pick(Shapes \ (IF op = "stream" THEN {"nomessage", "nochoices", "parts"} ELSE IF op = "gen" THEN {} ELSE {"nomessage", "nochoices", "parts", "null", "missing"})), u \in Pick(Usages) :
       \E cs \in IF Chat /\ ~Fails(sh) THEN (IF Sim THEN RandCalls ELSE IF Len(script) + 1 = MaxSteps THEN LastCalls ELSE SeqsOf(Calls, MaxCalls)) ELSE {<<>>} :
         script' = Append(script, [sh |-> sh, u |-> u, calls |-> cs])
  /\ UNCHANGED <<op, given, lane>>

\* what a call comes to: kind of the result in the history, or failure of the run
Stop(k) == k = MaxSteps
Outcome(c) == IF ~HasTools THEN "error"
              ELSE IF c.post = "repair" THEN "repaired"
              ELSE IF c.out \in {"throw", "throwodd"} THEN "error"
              ELSE IF c.out \in NoJson THEN "fatal" ELSE "value"
\* the attributes of the instrumented lane are best effort
Attr(v) == IF v \in NoJson \cup {"undef", "fn"} THEN "none" ELSE "json"

Advance(l) ==
  LET s == lane[l]  k == s.steps + 1 IN
  /\ s.end = "" /\ s.steps < Len(script)
  /\ LET a == script[k]
         req == <<[o |-> "req", k |-> k]>>
         outs == [i \in DOMAIN a.calls |-> Outcome(a.calls[i])]
         runs == ~Stop(k) /\ Len(a.calls) > 0
         fatal == runs /\ \E i \in DOMAIN outs : outs[i] = "fatal"
         at == IF l = "t" /\ runs /\ HasTools THEN [i \in DOMAIN a.calls |-> <<Attr(a.calls[i].in), Attr(a.calls[i].out)>>] ELSE <<>>
     IN lane' = [lane EXCEPT ![l] =
          IF Fails(a.sh) THEN [s EXCEPT !.steps = k, !.vis = @ \o req, !.end = "fail"]
          ELSE IF ~Chat THEN [s EXCEPT !.steps = k, !.vis = @ \o req, !.end = "ok"]
          ELSE IF fatal THEN [s EXCEPT !.steps = k, !.vis = @ \o req, !.end = "fail", !.attrs = @ \o at]
          ELSE [s EXCEPT !.steps = k, !.vis = @ \o req \o (IF runs THEN <<[o |-> "tools", outs |-> outs]>> ELSE <<>>) \o <<[o |-> "step", k |-> k]>>,
                         !.end = IF runs THEN "" ELSE "ok", !.attrs = @ \o at]]
  /\ UNCHANGED <<op, given, script>>

\* one lane at a time suffices for the generated behaviours: the lanes share nothing but the environment
Next == Answer \/ (IF lane["p"].steps < Len(script) THEN Advance("p") ELSE Advance("t"))
Spec == Init /\ [][Next]_vars

Seen(l) == [vis |-> lane[l].vis, end |-> lane[l].end]
Same == lane["p"].steps = lane["t"].steps => Seen("p") = Seen("t")
NoTrace == lane["p"].attrs = <<>>
Done == \A l \in Lanes : lane[l].end # ""
Emit == Done => PrintT("@@" \o ToJson([op |-> op, given |-> given, script |-> script, vis |-> lane["p"].vis, end |-> lane["p"].end, attrs |-> lane["t"].attrs]))
=============================================================================
