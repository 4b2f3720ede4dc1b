-------------------------------- MODULE Spans --------------------------------
(***************************************************************************)
(* The trace of an instrumented run.  ChatLoop is extended with the spans  *)
(* the run has started, in order; at/to are the positions in the history   *)
(* at which a span was started and ended (0: not yet).                     *)
(***************************************************************************)
EXTENDS ChatLoop

VARIABLE sp
svars == <<vars, sp>>

At == Len(h')
Chat == [kind |-> "chat", n |-> n, i |-> 0, at |-> At, to |-> 0, st |-> "open", err |-> "", ans |-> FALSE]
Tool(i) == [kind |-> "tool", n |-> n, i |-> i, at |-> At, to |-> 0, st |-> "open", err |-> "", ans |-> FALSE]
OpenChat == {k \in DOMAIN sp : sp[k].kind = "chat" /\ sp[k].st = "open"}

EndChat(how, e) == [k \in DOMAIN sp |-> IF k \in OpenChat THEN [sp[k] EXCEPT !.to = At, !.st = how, !.err = e] ELSE sp[k]]
\* whatever leads to the end of the run from inside a step ends its span as failed
Fails == pc' = "finish" /\ err' # "" /\ OpenChat # {}
Step(same) == sp' = IF Fails THEN EndChat("error", err') ELSE same

\* the model's answer has arrived completely
Answered == [k \in DOMAIN sp |-> IF k \in OpenChat THEN [sp[k] EXCEPT !.ans = TRUE] ELSE sp[k]]

SInit == Init /\ sp = <<>>
SNext ==
  \/ (Start \/ Prepare \/ Half \/ Fail \/ Abort \/ Cancel \/ Collect) /\ Step(sp)
  \/ Respond /\ Step(sp)
  \/ Record /\ sp' = IF Fails THEN [k \in DOMAIN sp |-> [EndChat("error", err')[k] EXCEPT !.ans = Answered[k].ans]] ELSE Answered
  \/ Decide /\ Step(sp)
  \* the span of a step covers its request
  \/ Send /\ sp' = IF pc' = "finish" THEN Append(sp, [Chat EXCEPT !.to = At, !.st = "error", !.err = err'])
                                     ELSE Append(sp, Chat)
  \* every execution of a tool has its own span
  \/ Launch /\ LET runs == FilterIdx(cur.k, LAMBDA i : ts'[i] = "run")
                   base == IF Fails THEN EndChat("error", err') ELSE sp
               IN sp' = base \o [j \in 1..Len(runs) |-> Tool(runs[j])]
  \/ ToolDone /\ sp' = [k \in DOMAIN sp |->
        IF sp[k].kind = "tool" /\ sp[k].n = n /\ ts[sp[k].i] = "run" /\ ts'[sp[k].i] # "run" /\ sp[k].st = "open"
        THEN [sp[k] EXCEPT !.to = At, !.st = IF ts'[sp[k].i] = "ok" THEN "ok" ELSE "error",
                           !.err = IF ts'[sp[k].i] = "ok" THEN "" ELSE "tool"]
        ELSE sp[k]]
  \* it ends with the step, before the next one begins
  \/ StepDone /\ sp' = IF Fails THEN EndChat("error", err') ELSE EndChat("ok", "")
  \/ Finish /\ UNCHANGED sp
SSpec == SInit /\ [][SNext]_svars
-------------------------------------------------------------------------------
InStep == pc \in {"wait", "mid", "record", "decide", "launch", "tools", "collect", "stepdone"}
OneChatSpan == Cardinality(OpenChat) = (IF InStep THEN 1 ELSE 0)
OnePerStep == \A k, l \in DOMAIN sp : (sp[k].kind = "chat" /\ sp[l].kind = "chat" /\ sp[k].n = sp[l].n) => k = l
OnePerTool == \A k, l \in DOMAIN sp : (sp[k].kind = "tool" /\ sp[l].kind = "tool" /\ sp[k].n = sp[l].n /\ sp[k].i = sp[l].i) => k = l
ToolSpansOfRunning == {<<sp[k].n, sp[k].i>> : k \in {j \in DOMAIN sp : sp[j].kind = "tool" /\ sp[j].st = "open"}}
                        = (IF pc = "tools" THEN {<<n, i>> : i \in Running} ELSE {})
AllEnded == pc = "end" => \A k \in DOMAIN sp : sp[k].st # "open"
Nested == \A k \in DOMAIN sp : sp[k].kind = "tool" =>
  \E l \in DOMAIN sp : sp[l].kind = "chat" /\ sp[l].n = sp[k].n /\ sp[l].at <= sp[k].at /\ (sp[l].to = 0 \/ sp[l].to >= sp[k].to)
Truth ==
  \A k \in DOMAIN sp : sp[k].kind = "chat" =>
    /\ (sp[k].st = "ok" => \E j \in DOMAIN steps : steps[j].n = sp[k].n)
    /\ (sp[k].st = "error" => sp[k].n = n /\ err # "" /\ err = sp[k].err)
Success == (pc = "end" /\ err = "") => \A k \in DOMAIN sp : sp[k].kind = "chat" => sp[k].st = "ok"

SEmit == Terminal => PrintT("@@" \o ToJson(
  [api |-> Api, h |-> h, msgs |-> msgs, steps |-> steps, err |-> err,
   evs |-> evs, txts |-> txts, rsn |-> rsn, full |-> full, cut |-> cut, sp |-> sp]))
===============================================================================
