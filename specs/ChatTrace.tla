------------------------------ MODULE ChatTrace -------------------------------
(***************************************************************************)
(* Checks executions recorded from the real code against ChatLoop.         *)
(*                                                                         *)
(* In the recorded runs the environment (server, tools, caller) acts at    *)
(* arbitrary moments, down to single microtasks, and not only when the     *)
(* library is quiescent.  What was seen is the sequence of entries of one  *)
(* line of traces.ndjson, in real order.  A trace is accepted when it is   *)
(* the sequence of observations of some behaviour of this specification,   *)
(* which is ChatLoop with its steps split where the environment may come   *)
(* in between: tools start one by one, the caller aborts at any moment,    *)
(* the finish callback and the end of the run are separate.                *)
(***************************************************************************)
EXTENDS ChatLoop

Traces == ndJsonDeserialize("traces.ndjson")

VARIABLES tr, l
tvars == <<vars, tr, l>>

T == Traces[tr].t

InitT ==
  /\ tr \in DOMAIN Traces /\ l = 1
  /\ pc = "idle" /\ n = 1 /\ msgs = <<>> /\ steps = <<>> /\ cur = NoCur /\ ts = <<>>
  /\ stopped = FALSE /\ aborted = FALSE /\ fetchMode = Traces[tr].fetch /\ evAt = 0 /\ ov = "none" /\ err = ""
  /\ evs = <<>> /\ txts = <<>> /\ rsn = <<>> /\ full = <<>>
  /\ cut = [s \in Streams |-> NoCut]
  /\ h = <<>>

\* a logged entry tells less than an observation of the specification, but nothing else
Match(x, y) == \A f \in DOMAIN y : f \in DOMAIN x /\ x[f] = y[f]

Logged ==
  LET k == Len(h') - Len(h) IN
  /\ l' = l + k
  /\ l + k - 1 <= Len(T)
  /\ \A j \in 1..k : Match(h'[Len(h) + j], T[l + j - 1])
  /\ UNCHANGED tr

Next1(e) == l <= Len(T) /\ "e" \in DOMAIN T[l] /\ T[l].e = e
NoOut == UNCHANGED <<evs, txts, rsn, full, cut>>

-------------------------------------------------------------------------------
\* What an aborted run may leave out: the request need not reach fetch.
SkipSend ==
  /\ pc = "send" /\ aborted
  /\ pc' = "finish" /\ err' = "abort"
  /\ UNCHANGED <<n, msgs, steps, cur, ts, stopped, aborted, fetchMode, evAt, ov, h>> /\ NoOut

\* With the abort coming between two steps, the next one need not be begun, and its request need not be built.
SkipStep ==
  /\ pc = "prepare" /\ aborted /\ n > 1
  /\ pc' = "finish" /\ err' \in {"", "abort"}
  /\ UNCHANGED <<n, msgs, steps, cur, ts, stopped, aborted, fetchMode, evAt, ov, h>> /\ NoOut

\* The whole response has arrived.
RespondT ==
  /\ pc = "wait" /\ Next1("respond")
  /\ LET r == T[l].r IN
       /\ r.k = Len(r.kinds) /\ Sensible(r)
       /\ cur' = r
       /\ Env([e |-> "respond", n |-> n, r |-> r])
  /\ pc' = "record"
  /\ UNCHANGED <<n, msgs, steps, ts, stopped, aborted, fetchMode, evAt, ov, err>> /\ NoOut

\* An abort overtakes what is still on its way to the library.
Overtaken ==
  /\ aborted /\ fetchMode = "honour" /\ pc \in {"record", "finish"} /\ err # "abort"
  /\ pc = "finish" => (err \in WaitFails \/ (Api = "resp" /\ err = ""))
  /\ pc' = "finish" /\ err' = "abort"
  /\ UNCHANGED <<n, msgs, steps, cur, ts, stopped, aborted, fetchMode, evAt, ov, h>> /\ NoOut

RecordT == Record

\* The tool calls of the response are taken up; each of them is started on its own.
LaunchT ==
  /\ pc = "launch"
  /\ ts' = [i \in 1..cur.k |-> IF cur.kinds[i] = "exec" THEN "pend" ELSE cur.kinds[i]]
  /\ pc' = "tools"
  /\ UNCHANGED <<n, msgs, steps, cur, stopped, aborted, fetchMode, evAt, ov, err, h>> /\ NoOut

\* No tool is started after an abort.
StartTool ==
  /\ pc = "tools"
  /\ \E i \in DOMAIN ts :
       /\ ts[i] = "pend"
       /\ IF aborted THEN ts' = [ts EXCEPT ![i] = "aborted"] /\ h' = h
          ELSE ts' = [ts EXCEPT ![i] = "run"] /\ Obs([o |-> "tool", n |-> n, i |-> i, msgs |-> msgs])
  /\ UNCHANGED <<pc, n, msgs, steps, cur, stopped, aborted, fetchMode, evAt, ov, err>> /\ NoOut

ToolDoneT ==
  /\ pc = "tools"
  /\ \E i \in Running, o \in ToolOuts :
       /\ ts' = [ts EXCEPT ![i] = IF o = "throw" /\ aborted THEN "aborted" ELSE o]
       /\ Env([e |-> "tool", n |-> n, i |-> i, out |-> o])
  /\ UNCHANGED <<pc, n, msgs, steps, cur, stopped, aborted, fetchMode, evAt, ov, err>> /\ NoOut

\* Failures seen by the library after an abort are described as such.
CollectT ==
  /\ pc = "tools" /\ \A i \in DOMAIN ts : ts[i] \notin {"pend", "run"}
  /\ \E late \in SUBSET {i \in DOMAIN ts : aborted /\ ts[i] # "ok" /\ ts[i] # "aborted"} :
       LET outs == [i \in DOMAIN ts |-> IF i \in late THEN "aborted" ELSE ts[i]] IN
       /\ ts' = outs
       /\ msgs' = msgs \o Map(cur.k, LAMBDA i : [r |-> "t", s |-> n, i |-> i, out |-> outs[i]])
  /\ pc' = "stepdone"
  /\ UNCHANGED <<n, steps, cur, stopped, aborted, fetchMode, evAt, ov, err, h>> /\ NoOut

\* Whether another step follows is settled some time between the last result and the step callback.
StepDoneT ==
  /\ pc = "stepdone"
  /\ LET st == [n |-> n, k |-> cur.k, outs |-> ts, u |-> cur.u, end |-> cur.end]
         more == cur.k > 0 /\ ~stopped /\ cur.end = "done"
     IN /\ steps' = Append(steps, st)
        /\ \E c \in StepCbs, cont \in {more, more /\ ~aborted} :
             /\ IF c = "absent" THEN h' = h ELSE Obs([o |-> "step", ans |-> c, n |-> n])
             /\ aborted' = (aborted \/ c = "abort")
             /\ IF c = "throw" THEN pc' = "finish" /\ err' = "stepcb" /\ UNCHANGED <<n, ts, cur>>
                ELSE /\ UNCHANGED err
                     /\ IF cont THEN pc' = "prepare" /\ n' = n + 1 /\ ts' = <<>> /\ cur' = NoCur
                        ELSE pc' = "finish" /\ UNCHANGED <<n, ts, cur>>
  /\ UNCHANGED <<msgs, stopped, fetchMode, evAt, ov>> /\ NoOut

FinishT ==
  /\ pc = "finish"
  /\ \E c \in (IF Api = "gen" THEN {"absent"} ELSE FinCbs) :
       /\ err' = IF c = "throw" /\ err = "" THEN "fincb" ELSE err
       /\ h' = IF c = "absent" THEN h ELSE Append(h, [o |-> "finish", ans |-> c, steps |-> Len(steps)])
       /\ aborted' = (aborted \/ c = "abort")
  /\ pc' = "ending"
  /\ UNCHANGED <<n, msgs, steps, cur, ts, stopped, fetchMode, evAt, ov>> /\ NoOut

EndT ==
  /\ pc = "ending" /\ pc' = "end"
  /\ Obs([o |-> "end", err |-> err, steps |-> Len(steps), msgs |-> msgs])
  /\ UNCHANGED <<n, msgs, steps, cur, ts, stopped, aborted, fetchMode, evAt, ov, err>> /\ NoOut

AbortT ==
  /\ pc \notin {"idle", "end"} /\ ~aborted /\ Next1("abort")
  /\ aborted' = TRUE
  /\ Env([e |-> "abort"])
  /\ IF pc = "wait" /\ fetchMode = "honour" THEN pc' = "finish" /\ err' = "abort" ELSE UNCHANGED <<pc, err>>
  /\ UNCHANGED <<n, msgs, steps, cur, ts, stopped, fetchMode, evAt, ov>> /\ NoOut

NextT ==
  /\ \/ Start \/ Prepare \/ Send \/ SkipSend \/ SkipStep \/ RespondT \/ Fail \/ Overtaken \/ RecordT \/ Decide
     \/ LaunchT \/ StartTool \/ ToolDoneT \/ CollectT \/ StepDoneT \/ FinishT \/ EndT \/ AbortT
  /\ Logged

SpecT == InitT /\ [][NextT]_tvars

Progress == PrintT(<<"AT", tr, l>>)
Accepted == (pc = "end" /\ l = Len(T) + 1) => PrintT(<<"ACC", tr>>)
\* every recorded execution keeps the properties of the design along the way
NoBarrier == Running # {} => pc = "tools"
TraceView == <<pc, n, msgs, steps, cur, ts, stopped, aborted, ov, err, tr, l>>
===============================================================================
