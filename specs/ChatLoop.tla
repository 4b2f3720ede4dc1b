------------------------------- MODULE ChatLoop -------------------------------
(***************************************************************************)
(* The agent loop of xsai: generateText (Api = "gen"), streamText          *)
(* ("stream") and responses ("resp").                                      *)
(*                                                                         *)
(* Environment actions (recorded in h as [e |-> ...]) are what the caller, *)
(* the server, the tools and the consumers do; they happen only when the   *)
(* system is quiescent.  System actions are what the library must do in    *)
(* reaction; what a user can see of them is recorded as [o |-> ...].       *)
(* Answers of callbacks (step preparation, stop condition, step and finish *)
(* callbacks) are chosen in the action that calls them and are part of the *)
(* observation (field ans).                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Api,         \* "gen" | "stream" | "resp"
  MaxSteps,    \* bound on the number of steps
  CallCounts,  \* possible numbers of tool calls in a response
  CallKinds,   \* subset of {"exec", "unknown", "badargs", "noname"}
  ToolOuts,    \* subset of {"ok", "throw"}
  StopAns,     \* {"default"} (no condition given) or subset of {"yes","no","throw","abort"}
  Preps,       \* {"absent"} or subset of {"none","model","tool","input","all","mutate","leak","throw","abort"}
  StepCbs,     \* {"absent"} or subset of {"ok","throw","abort"}
  FinCbs,      \* {"absent"} or subset of {"ok","throw"}
  Usages,      \* subset of {"one","none","two"}
  Texts,       \* subset of {"text","none"}: does the response contain text
  Reasons,     \* subset of {"yes","no"}: does it contain reasoning
  Mids,        \* BOOLEAN: may the response arrive in two parts
  WaitFails,   \* failures instead of a response
  MidFails,    \* failures after the first part of a streamed response
  Ends,        \* subset of {"done","failed","incomplete"} (responses API)
  AbortAt,     \* subset of {"start","wait","mid","tools"}
  Fetches,     \* subset of {"honour","ignore"}: does fetch react to the signal
  MaxCancels,  \* how many output streams the consumer may cancel
  EvThrows,    \* subset of Nat: the event callback throws on its k-th call (0: never)
  Sim          \* BOOLEAN: draw one response at random (simulation) instead of considering all

VARIABLES
  pc, n, msgs, steps, cur, ts, stopped, aborted, fetchMode, evAt, ov, err,
  evs, txts, rsn, full, cut, h

vars == <<pc, n, msgs, steps, cur, ts, stopped, aborted, fetchMode, evAt, ov, err,
          evs, txts, rsn, full, cut, h>>

Streams == IF Api = "gen" THEN {} ELSE {"event", "text", "reason", "full"}
NoCut == 9999

NoCur == [k |-> 0, kinds |-> <<>>, u |-> "none", x |-> "none", g |-> "no", end |-> "done"]

Init ==
  /\ pc = "idle" /\ n = 1 /\ msgs = <<>> /\ steps = <<>> /\ cur = NoCur /\ ts = <<>>
  /\ stopped = FALSE /\ aborted = FALSE /\ fetchMode \in Fetches /\ evAt \in EvThrows /\ ov = "none" /\ err = ""
  /\ evs = <<>> /\ txts = <<>> /\ rsn = <<>> /\ full = <<>>
  /\ cut = [s \in Streams |-> NoCut]
  /\ h = <<>>

\* sequence helpers
Map(k, F(_)) == [i \in 1..k |-> F(i)]
FilterIdx(k, P(_)) == SelectSeq([i \in 1..k |-> i], P)

Lens == [t |-> Len(txts), r |-> Len(rsn), v |-> Len(evs), f |-> Len(full)]
Env(rec) == h' = Append(h, rec @@ [lens |-> Lens])
Obs(rec) == h' = Append(h, rec)

\* The event callback may throw on its evAt-th call: that event is the last one, and the run fails.
Crosses(new) == evAt > 0 /\ Len(evs) < evAt /\ Len(new) >= evAt
Upto(new) == IF Crosses(new) THEN SubSeq(new, 1, evAt) ELSE new
Quiescent == pc \in {"wait", "mid", "tools"}

\* In simulation, answers that cut a run short are drawn seldom, so that walks get deep.
Seldom(k) == Sim => RandomElement(1..k) = 1
Ans(X, rare) ==
  IF ~Sim \/ X = {} THEN X
  ELSE {RandomElement(IF X \ rare # {} /\ RandomElement(1..5) # 1 THEN X \ rare ELSE X)}

-------------------------------------------------------------------------------
Start ==
  /\ pc = "idle"
  /\ \E pre \in (IF "start" \in AbortAt THEN Ans(BOOLEAN, {TRUE}) ELSE {FALSE}) :
       /\ aborted' = pre
       /\ Env([e |-> "start", pre |-> pre, fetch |-> fetchMode, ev |-> evAt])
  /\ pc' = "prepare"
  /\ UNCHANGED <<n, msgs, steps, cur, ts, stopped, fetchMode, evAt, ov, err, evs, txts, rsn, full, cut>>

\* The step-preparation hook is called once per step, before the request.
Prepare ==
  /\ pc = "prepare"
  /\ \E p \in Ans(Preps, {"throw", "abort"}) :
       /\ IF p = "absent" THEN h' = h
          ELSE Obs([o |-> "prep", ans |-> p, n |-> n, msgs |-> msgs, steps |-> Len(steps)])
       /\ ov' = IF p \in {"absent", "mutate", "throw", "abort"} THEN "none" ELSE p
       /\ aborted' = (aborted \/ p = "abort")
       /\ IF p = "throw" THEN pc' = "finish" /\ err' = "prep"
                         ELSE pc' = "send" /\ UNCHANGED err
  /\ UNCHANGED <<n, msgs, steps, cur, ts, stopped, fetchMode, evAt, evs, txts, rsn, full, cut>>

\* One request per step; with an aborted signal it may or may not reach fetch, and is not answered.
Send ==
  /\ pc = "send"
  /\ Obs([o |-> "req", n |-> n, msgs |-> msgs, ov |-> ov, opt |-> aborted])
  /\ IF aborted THEN pc' = "finish" /\ err' = "abort"
                ELSE pc' = "wait" /\ UNCHANGED err
  /\ UNCHANGED <<n, msgs, steps, cur, ts, stopped, aborted, fetchMode, evAt, ov, evs, txts, rsn, full, cut>>

-------------------------------------------------------------------------------
(* What the first and the second part of a streamed response put on the    *)
(* output streams.                                                         *)
Part1(s, r) ==
  <<[t |-> "step.start", s |-> s]>>
  \o (IF r.g = "yes" THEN <<[t |-> "reasoning.start", s |-> s], [t |-> "reasoning.delta", s |-> s, p |-> 1]>> ELSE <<>>)
  \o (IF r.x = "text" THEN <<[t |-> "text.start", s |-> s], [t |-> "text.delta", s |-> s, p |-> 1]>> ELSE <<>>)

CallEv(s, i) ==
  IF Api = "resp"
  THEN <<[t |-> "call.start", s |-> s, i |-> i], [t |-> "call.delta", s |-> s, i |-> i], [t |-> "call.done", s |-> s, i |-> i]>>
  ELSE <<[t |-> "call.start", s |-> s, i |-> i], [t |-> "call.delta", s |-> s, i |-> i]>>

RECURSIVE CallEvs(_, _, _)
CallEvs(s, i, k) == IF i > k THEN <<>> ELSE CallEv(s, i) \o CallEvs(s, i + 1, k)

ReasonDone(s, r) == IF r.g = "yes" THEN <<[t |-> "reasoning.done", s |-> s]>> ELSE <<>>
TextDone(s, r) == IF r.x = "text" THEN <<[t |-> "text.done", s |-> s]>> ELSE <<>>

Part2(s, r) ==
  (IF Api = "resp" THEN ReasonDone(s, r) ELSE <<>>)
  \o (IF r.x = "text" THEN <<[t |-> "text.delta", s |-> s, p |-> 2]>> ELSE <<>>)
  \o (IF Api = "resp" THEN TextDone(s, r) ELSE <<>>)
  \o CallEvs(s, 1, r.k)
  \o (IF Api = "stream" THEN ReasonDone(s, r) \o TextDone(s, r) ELSE <<>>)

T1(s, r) == IF r.x = "text" THEN <<[s |-> s, p |-> 1]>> ELSE <<>>
T2(s, r) == IF r.x = "text" THEN <<[s |-> s, p |-> 2]>> ELSE <<>>
R1(s, r) == IF r.g = "yes" THEN <<[s |-> s, p |-> 1]>> ELSE <<>>

\* of many calls at most one is of another kind
Kinds(c) == IF c <= 4 THEN [1..c -> CallKinds] ELSE {[i \in 1..c |-> IF i = j THEN kind ELSE "exec"] : j \in 1..c, kind \in CallKinds}

Responses ==
  UNION { [k : {c}, kinds : Kinds(c), u : Usages, x : Texts, g : Reasons, end : Ends]
          : c \in CallCounts }

\* responses that end as failed/incomplete carry no calls (nothing may run after them anyway)
Sensible(r) == r.end = "done" \/ r.k <= 1

\* without another step to come, a response must not ask for one
Allowed == {r \in Responses : Sensible(r) /\ ((n = MaxSteps /\ StopAns = {"no"}) => r.k = 0)}
Offered == IF Sim /\ Allowed # {} THEN {RandomElement(Allowed)} ELSE Allowed

Stream(part1, part2, r, next) ==
  /\ LET new == evs \o (IF part1 THEN Part1(n, r) ELSE <<>>) \o (IF part2 THEN Part2(n, r) ELSE <<>>)
     IN /\ evs' = Upto(new)
        /\ IF Crosses(new) THEN pc' = "finish" /\ err' = "evcb" ELSE pc' = next /\ UNCHANGED err
  /\ txts' = txts \o (IF part1 THEN T1(n, r) ELSE <<>>) \o (IF part2 THEN T2(n, r) ELSE <<>>)
  /\ rsn' = rsn \o (IF part1 THEN R1(n, r) ELSE <<>>)
  /\ full' = full \o (IF part1 THEN <<[s |-> n, p |-> 1]>> ELSE <<>>) \o (IF part2 THEN <<[s |-> n, p |-> 2]>> ELSE <<>>)

Silent == UNCHANGED <<evs, txts, rsn, full>>

\* The first part of a streamed response arrives.
Half ==
  /\ Mids /\ pc = "wait" /\ Api # "gen"
  /\ \E r \in Offered :
       /\ cur' = r
       /\ Stream(TRUE, FALSE, r, "mid")
       /\ Env([e |-> "half", n |-> n, r |-> r])
  /\ UNCHANGED <<n, msgs, steps, ts, stopped, aborted, fetchMode, evAt, ov, cut>>

\* The rest of it, or a whole response, arrives.
Respond ==
  /\ pc \in {"wait", "mid"}
  /\ \E r \in (IF pc = "mid" THEN {cur} ELSE Offered) :
       /\ cur' = r
       /\ IF Api = "gen" THEN Silent /\ pc' = "record" /\ UNCHANGED err ELSE Stream(pc = "wait", TRUE, r, "record")
       /\ Env([e |-> "respond", n |-> n, r |-> r, half |-> (pc = "mid")])
  /\ UNCHANGED <<n, msgs, steps, ts, stopped, aborted, fetchMode, evAt, ov, cut>>

\* Something goes wrong instead.
Fail ==
  /\ pc \in {"wait", "mid"} /\ Seldom(4)
  /\ \E f \in Ans(IF pc = "wait" THEN WaitFails ELSE MidFails, {}) :
       \* a streamed answer that starts well opens the step
       /\ LET new == IF pc = "wait" /\ Api = "stream" /\ f \in {"badjson", "srverr", "cut"}
                     THEN Append(evs, [t |-> "step.start", s |-> n]) ELSE evs
          IN /\ evs' = Upto(new)
             /\ err' = IF Crosses(new) THEN "evcb" ELSE f
       /\ Env([e |-> "fail", n |-> n, f |-> f, half |-> (pc = "mid")])
  /\ pc' = "finish"
  /\ UNCHANGED <<n, msgs, steps, cur, ts, stopped, aborted, fetchMode, evAt, ov, txts, rsn, full, cut>>

-------------------------------------------------------------------------------
\* The model's turn enters the history; a response completing after an abort fails the run.
Record ==
  /\ pc = "record"
  /\ msgs' = Append(msgs, [r |-> "a", s |-> n])
  /\ LET new == IF Api = "stream" /\ ~aborted
                THEN evs \o Map(cur.k, LAMBDA i : [t |-> "call.done", s |-> n, i |-> i]) ELSE evs
     IN /\ evs' = Upto(new)
        /\ IF Crosses(new) THEN pc' = "finish" /\ err' = "evcb"
           ELSE IF cur.end # "done" THEN pc' = "stepdone" /\ UNCHANGED err
           ELSE IF aborted THEN pc' = "finish" /\ err' = "abort"
           ELSE pc' = "decide" /\ UNCHANGED err
  /\ UNCHANGED <<n, steps, cur, ts, stopped, aborted, fetchMode, evAt, ov, txts, rsn, full, cut, h>>

\* The stop condition is evaluated exactly once per completed response.
Decide ==
  /\ pc = "decide"
  /\ \E a \in Ans(IF n = MaxSteps /\ cur.k > 0 THEN StopAns \ {"no"} ELSE StopAns, {"yes", "throw", "abort"}) :
       /\ IF a = "default" THEN h' = h
          ELSE Obs([o |-> "stop", ans |-> a, n |-> n, steps |-> Len(steps) + 1, msgs |-> msgs])
       /\ stopped' = (a \in {"default", "yes"})
       /\ aborted' = (aborted \/ a = "abort")
       /\ IF a = "throw" THEN pc' = "finish" /\ err' = "stop"
          ELSE /\ UNCHANGED err
               /\ pc' = IF cur.k > 0 /\ a \in {"no", "abort"} THEN "launch" ELSE "stepdone"
  /\ UNCHANGED <<n, msgs, steps, cur, ts, fetchMode, evAt, ov, evs, txts, rsn, full, cut>>

Running == {i \in DOMAIN ts : ts[i] = "run"}

\* All tool calls of the response are started together.
Launch ==
  /\ pc = "launch"
  /\ LET bad == \E i \in 1..cur.k : cur.kinds[i] = "noname"
         init == [i \in 1..cur.k |->
                    IF cur.kinds[i] = "exec" /\ ~aborted THEN "run"
                    ELSE IF aborted THEN "aborted" ELSE cur.kinds[i]]
         execs == FilterIdx(cur.k, LAMBDA i : init[i] = "run")
     IN /\ ts' = init
        /\ h' = h \o [j \in 1..Len(execs) |-> [o |-> "tool", n |-> n, i |-> execs[j], opt |-> bad, msgs |-> msgs]]
        /\ IF bad THEN pc' = "finish" /\ err' = "badcall"
           ELSE /\ UNCHANGED err
                /\ pc' = IF execs = <<>> THEN "collect" ELSE "tools"
  /\ UNCHANGED <<n, msgs, steps, cur, stopped, aborted, fetchMode, evAt, ov, evs, txts, rsn, full, cut>>

\* A tool finishes; in any order.
ToolDone ==
  /\ pc = "tools"
  /\ \E i \in Running, o \in ToolOuts :
       /\ ts' = [ts EXCEPT ![i] = IF o = "throw" /\ aborted THEN "aborted" ELSE o]
       /\ Env([e |-> "tool", n |-> n, i |-> i, out |-> o])
       /\ pc' = IF Running = {i} THEN "collect" ELSE "tools"
  /\ UNCHANGED <<n, msgs, steps, cur, stopped, aborted, fetchMode, evAt, ov, err, evs, txts, rsn, full, cut>>

\* Only when all have finished, their results are attached in call order.
ResultEvs == IF Len(ts) = cur.k THEN Map(cur.k, LAMBDA i : [t |-> "result", s |-> n, i |-> i, out |-> ts[i]]) ELSE <<>>
Collect ==
  /\ pc = "collect"
  /\ msgs' = msgs \o Map(cur.k, LAMBDA i : [r |-> "t", s |-> n, i |-> i, out |-> ts[i]])
  /\ LET new == IF Api = "stream" THEN evs \o ResultEvs ELSE evs
     IN /\ evs' = Upto(new)
        /\ IF Crosses(new) THEN pc' = "finish" /\ err' = "evcb" ELSE pc' = "stepdone" /\ UNCHANGED err
  /\ UNCHANGED <<n, steps, cur, ts, stopped, aborted, fetchMode, evAt, ov, txts, rsn, full, cut, h>>

StepDone ==
  /\ pc = "stepdone"
  /\ LET st == [n |-> n, k |-> cur.k, outs |-> ts, u |-> cur.u, end |-> cur.end]
         cont == cur.k > 0 /\ ~stopped /\ ~aborted /\ cur.end = "done"
         new == IF Api = "gen" THEN evs
                ELSE evs \o (IF Api = "resp" THEN ResultEvs ELSE <<>>) \o <<[t |-> "step.done", s |-> n]>>
     IN /\ steps' = Append(steps, st)
        /\ \E c \in Ans(StepCbs, {"throw", "abort"}) :
             /\ IF c = "absent" THEN h' = h ELSE Obs([o |-> "step", ans |-> c, n |-> n])
             /\ aborted' = (aborted \/ c = "abort")
             /\ evs' = IF c = "throw" THEN evs ELSE Upto(new)
             \* the server's closing event is handed on with the step
             /\ full' = IF Api = "resp" /\ c # "throw" THEN Append(full, [s |-> n, p |-> 3]) ELSE full
             /\ IF c = "throw" THEN pc' = "finish" /\ err' = "stepcb" /\ UNCHANGED <<n, ts, cur>>
                ELSE IF Crosses(new) THEN pc' = "finish" /\ err' = "evcb" /\ UNCHANGED <<n, ts, cur>>
                ELSE /\ UNCHANGED err
                     /\ IF cont THEN pc' = "prepare" /\ n' = n + 1 /\ ts' = <<>> /\ cur' = NoCur
                        ELSE pc' = "finish" /\ UNCHANGED <<n, ts, cur>>
  /\ UNCHANGED <<msgs, stopped, fetchMode, evAt, ov, txts, rsn, cut>>

\* The finish callback (streaming only) is called exactly once, on success and failure alike.
Finish ==
  /\ pc = "finish"
  /\ \E c \in (IF Api = "gen" THEN {"absent"} ELSE FinCbs) :
       /\ err' = IF c = "throw" /\ err = "" THEN "fincb" ELSE err
       /\ h' = (IF c = "absent" THEN h ELSE Append(h, [o |-> "finish", ans |-> c, steps |-> Len(steps)]))
               \o <<[o |-> "end", err |-> err']>>
  /\ pc' = "end"
  /\ UNCHANGED <<n, msgs, steps, cur, ts, stopped, aborted, fetchMode, evAt, ov, evs, txts, rsn, full, cut>>

-------------------------------------------------------------------------------
\* The caller aborts. A fetch that honours the signal fails the pending request or body.
Abort ==
  /\ Quiescent /\ ~aborted /\ pc \in AbortAt /\ Seldom(6)
  /\ aborted' = TRUE
  /\ Env([e |-> "abort", at |-> pc])
  /\ IF pc \in {"wait", "mid"} /\ fetchMode = "honour"
     THEN pc' = "finish" /\ err' = "abort"
     ELSE UNCHANGED <<pc, err>>
  /\ UNCHANGED <<n, msgs, steps, cur, ts, stopped, fetchMode, evAt, ov, evs, txts, rsn, full, cut>>

\* The consumer cancels one of the output streams; the run does not notice.
Length(s) == CASE s = "event" -> Len(evs) [] s = "text" -> Len(txts) [] s = "reason" -> Len(rsn) [] s = "full" -> Len(full)
Cancel ==
  /\ Quiescent
  /\ Cardinality({s \in Streams : cut[s] # NoCut}) < MaxCancels /\ Seldom(3)
  /\ \E s \in Streams :
       /\ cut[s] = NoCut
       /\ cut' = [cut EXCEPT ![s] = Length(s)]
       /\ Env([e |-> "cancel", s |-> s])
  /\ UNCHANGED <<pc, n, msgs, steps, cur, ts, stopped, aborted, fetchMode, evAt, ov, err, evs, txts, rsn, full>>

System == Prepare \/ Send \/ Record \/ Decide \/ Launch \/ Collect \/ StepDone \/ Finish
Environment == Start \/ Half \/ Respond \/ Fail \/ ToolDone \/ Abort \/ Cancel
Next == System \/ Environment
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(System) /\ WF_vars(Respond \/ ToolDone \/ Start)

-------------------------------------------------------------------------------
(* Properties of the design *)

ObsIn == SelectSeq(h, LAMBDA x : "o" \in DOMAIN x)
Count(P(_)) == Len(SelectSeq(ObsIn, P))

TypeOK ==
  /\ n \in 1..MaxSteps /\ Len(steps) <= n
  /\ \A i \in DOMAIN steps : steps[i].n = i

\* C02: the history is, per step, the assistant turn followed by its results in call order
RECURSIVE HistoryOf(_)
HistoryOf(ss) ==
  IF ss = <<>> THEN <<>>
  ELSE LET s == ss[Len(ss)] IN
       HistoryOf(SubSeq(ss, 1, Len(ss) - 1))
       \o <<[r |-> "a", s |-> s.n]>>
       \o [i \in 1..Len(s.outs) |-> [r |-> "t", s |-> s.n, i |-> i, out |-> s.outs[i]]]
HistoryInv == pc \in {"prepare", "send", "wait", "mid"} => msgs = HistoryOf(steps)
HistoryEnd == (pc = "end" /\ err = "") => msgs = HistoryOf(steps)
\* a tool is given the history that ends with the turn calling it
ToolHistory ==
  \A i \in DOMAIN h : ("o" \in DOMAIN h[i] /\ h[i].o = "tool") =>
    /\ h[i].msgs[Len(h[i].msgs)] = [r |-> "a", s |-> h[i].n]
    /\ SubSeq(h[i].msgs, 1, Len(h[i].msgs) - 1) = HistoryOf(SubSeq(steps, 1, h[i].n - 1))

\* C01: every further request is justified by executed tool calls and a negative stop answer
ContinueInv ==
  n > 1 => /\ steps[n - 1].k > 0 /\ Len(steps[n - 1].outs) = steps[n - 1].k
           /\ steps[n - 1].end = "done"
OneRequestPerStep == Count(LAMBDA x : x.o = "req") <= n
OneStopPerStep == Count(LAMBDA x : x.o = "stop") <= n
StepsOnce == StepCbs # {"absent"} => Count(LAMBDA x : x.o = "step") = Len(steps)

\* C05: nothing is sent and no step recorded while a tool runs
BarrierInv == Running # {} => pc \in {"tools"} \/ err = "badcall"
ResultsInOrder ==
  \A i, j \in DOMAIN msgs :
    (i < j /\ msgs[i].r = "t" /\ msgs[j].r = "t" /\ msgs[i].s = msgs[j].s) => msgs[i].i < msgs[j].i

\* C10: the run ends once, and the finish callback has been called once by then
FinishOnce == Count(LAMBDA x : x.o = "finish") = (IF pc = "end" /\ FinCbs # {"absent"} /\ Api # "gen" THEN 1 ELSE 0)
EndOnce == Count(LAMBDA x : x.o = "end") = (IF pc = "end" THEN 1 ELSE 0)

\* C12: after an abort nothing new is started
AbortInv ==
  [][aborted => /\ (pc = "wait" => pc' # "prepare")
                /\ (\A i \in DOMAIN ts' : ts'[i] = "run" => (i \in DOMAIN ts /\ ts[i] = "run"))]_vars
Terminates == <>(pc = "end")

\* C09: the grammar of the event stream
IdxOf(P(_)) == {i \in DOMAIN evs : P(evs[i])}
GrammarInv ==
  /\ \A i, j \in DOMAIN evs : i <= j => evs[i].s <= evs[j].s               \* steps do not interleave
  /\ \A i \in DOMAIN evs :
       /\ (i = 1 \/ evs[i - 1].s # evs[i].s) => evs[i].t = "step.start"
       /\ evs[i].t = "step.start" => (i = 1 \/ (evs[i - 1].t = "step.done" /\ evs[i - 1].s < evs[i].s))
       /\ evs[i].t = "step.done" => (i = Len(evs) \/ evs[i + 1].t = "step.start")
       /\ evs[i].t \in {"text.delta", "text.done"} =>
            \E j \in 1..(i - 1) : evs[j] = [t |-> "text.start", s |-> evs[i].s]
       /\ evs[i].t = "result" =>
            \E j \in 1..(i - 1) : evs[j] = [t |-> "call.done", s |-> evs[i].s, i |-> evs[i].i]
       /\ \A j \in DOMAIN evs : (i # j /\ evs[i].t # "text.delta") => evs[i] # evs[j]

Terminal == pc = "end"
Emit == Terminal => PrintT("@@" \o ToJson(
  [api |-> Api, h |-> h, msgs |-> msgs, steps |-> steps, err |-> err,
   evs |-> evs, txts |-> txts, rsn |-> rsn, full |-> full, cut |-> cut]))

\* for model checking without the history variable
NoHistory == <<pc, n, msgs, steps, cur, ts, stopped, aborted, fetchMode, evAt, ov, err, evs, cut>>
===============================================================================
