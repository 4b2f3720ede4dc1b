------------------------------- MODULE ToolCall -------------------------------
(***************************************************************************)
(* The life of one tool call: pre-call hook, lookup, parsing, validation,  *)
(* execution, post-call hook, result.  The answers of the user's callbacks *)
(* and whether the caller aborts while they run are chosen in the action   *)
(* that calls them.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Names,     \* subset of {"known", "unknown", "missing"}: the name in the call
  Args,      \* subset of {"object", "array", "scalar", "null", "blank", "bad", "missing"}
  Vals,      \* subset of {"absent", "accept", "transform", "reject", "throw"}: the validator of the tool
  Outs,      \* subset of {"string", "empty", "object", "array", "parts", "foreign", "mixed", "throw", "throwtext"}
  Pres,      \* {"absent"} or subset of {"none", "same", "args", "name", "both", "unknown", "badargs", "answer", "throw", "wrongcall", "wrongresult"}
  Posts,     \* {"absent"} or subset of {"none", "replace", "throw", "wrongid"}
  AbortAt    \* subset of {"start", "pre", "validate", "exec", "post"}

VARIABLES pc, call, res, val, aborted, executed, h
vars == <<pc, call, res, val, aborted, executed, h>>

\* call: which tool ("t1", "t2", "unknown", "missing"), which argument text (original "o" or rewritten "w") and its kind
NoRes == [k |-> "none"]
Init ==
  /\ pc = "start" /\ res = NoRes /\ val = "none" /\ executed = FALSE /\ h = <<>>
  /\ \E n \in Names, a \in Args, v \in Vals :
       call = [tool |-> IF n = "known" THEN "t1" ELSE n, src |-> "o", args |-> a, vdt |-> v]
  /\ aborted \in (IF "start" \in AbortAt THEN BOOLEAN ELSE {FALSE})

MayAbort(at) == IF at \in AbortAt /\ ~aborted THEN BOOLEAN ELSE {FALSE}
\* an error result names the tool of the call at that moment; the text tells the cause, or that the run was aborted
Error(c, cause, args, ab) == [k |-> "error", tool |-> c.tool, cause |-> (IF ab THEN "aborted" ELSE cause), args |-> args]

Start ==
  /\ pc = "start"
  /\ h' = <<[o |-> "start", call |-> call, aborted |-> aborted]>>
  /\ IF call.tool = "missing" THEN pc' = "end" /\ res' = [k |-> "reject", why |-> "missing_name"]
     ELSE IF call.args = "missing" THEN pc' = "end" /\ res' = [k |-> "reject", why |-> "missing_arguments"]
     ELSE pc' = "pre" /\ UNCHANGED res
  /\ UNCHANGED <<call, val, aborted, executed>>

Pre ==
  /\ pc = "pre"
  /\ \E p \in Pres, ab \in MayAbort("pre") :
       /\ p = "absent" => ~ab
       /\ aborted' = (aborted \/ ab)
       /\ h' = IF p = "absent" THEN h ELSE Append(h, [o |-> "pre", ans |-> p, ab |-> ab])
       /\ call' = CASE p = "args" -> [call EXCEPT !.src = "w", !.args = "object"]
                    [] p = "name" -> [call EXCEPT !.tool = "t2"]
                    [] p = "both" -> [call EXCEPT !.tool = "t2", !.src = "w", !.args = "object"]
                    [] p = "unknown" -> [call EXCEPT !.tool = "unknown2"]
                    [] p = "badargs" -> [call EXCEPT !.src = "w", !.args = "bad"]
                    [] OTHER -> call
       /\ CASE p \in {"wrongcall", "wrongresult"} -> pc' = "end" /\ res' = [k |-> "reject", why |-> "tool_call_id_mismatch"]
            [] p = "answer" -> pc' = "done" /\ res' = [k |-> "hook"]
            [] p = "throw" -> pc' = "done" /\ res' = Error(call, "pre", "raw", aborted')
            [] OTHER -> pc' = "lookup" /\ UNCHANGED res
  /\ UNCHANGED <<val, executed>>

Lookup ==
  /\ pc = "lookup"
  /\ IF call.tool \in {"t1", "t2"} THEN pc' = "parse" /\ UNCHANGED res
     ELSE pc' = "done" /\ res' = Error(call, "unknown", "raw", aborted)
  /\ UNCHANGED <<call, val, aborted, executed, h>>

\* blank arguments mean an empty object
Parse ==
  /\ pc = "parse"
  /\ IF call.args = "bad" THEN pc' = "done" /\ res' = Error(call, "badargs", "raw", aborted) /\ UNCHANGED val
     ELSE pc' = "validate" /\ val' = "parsed" /\ UNCHANGED res
  /\ UNCHANGED <<call, aborted, executed, h>>

Validate ==
  /\ pc = "validate"
  /\ LET v == IF call.tool = "t1" THEN call.vdt ELSE "absent" IN
     \E ab \in (IF v = "absent" THEN {FALSE} ELSE MayAbort("validate")) :
       /\ aborted' = (aborted \/ ab)
       /\ h' = IF v = "absent" THEN h ELSE Append(h, [o |-> "validate", ans |-> v, ab |-> ab, tool |-> call.tool, src |-> call.src])
       /\ val' = IF v = "transform" THEN "transformed" ELSE val
       /\ CASE v = "reject" -> pc' = "done" /\ res' = Error(call, "invalid", "parsed", aborted')
            [] v = "throw" -> pc' = "done" /\ res' = Error(call, "validator", "raw", aborted')
            [] aborted' -> pc' = "done" /\ res' = Error(call, "aborted", val', TRUE)
            [] OTHER -> pc' = "exec" /\ UNCHANGED res
  /\ UNCHANGED <<call, executed>>

Exec ==
  /\ pc = "exec"
  /\ \E out \in Outs, ab \in MayAbort("exec") :
       /\ aborted' = (aborted \/ ab)
       /\ executed' = TRUE
       /\ h' = Append(h, [o |-> "exec", ans |-> out, ab |-> ab, tool |-> call.tool, src |-> call.src, val |-> val])
       /\ res' = IF out \in {"throw", "throwtext"} THEN Error(call, out, val, aborted')
                 ELSE [k |-> "ok", tool |-> call.tool, out |-> out, args |-> val]
  /\ pc' = "post"
  /\ UNCHANGED <<call, val>>

Post ==
  /\ pc = "post"
  /\ \E p \in Posts, ab \in MayAbort("post") :
       /\ p = "absent" => ~ab
       /\ aborted' = (aborted \/ ab)
       /\ h' = IF p = "absent" THEN h ELSE Append(h, [o |-> "post", ans |-> p, ab |-> ab, res |-> res])
       /\ CASE p = "replace" -> pc' = "done" /\ res' = [k |-> "posthook"]
            [] p = "throw" -> pc' = "done" /\ res' = Error(call, "post", val, aborted')
            [] p = "wrongid" -> pc' = "end" /\ res' = [k |-> "reject", why |-> "tool_call_id_mismatch"]
            [] OTHER -> pc' = "done" /\ UNCHANGED res
  /\ UNCHANGED <<call, val, executed>>

Done ==
  /\ pc = "done" /\ pc' = "end"
  /\ UNCHANGED <<call, res, val, aborted, executed, h>>

Next == Start \/ Pre \/ Lookup \/ Parse \/ Validate \/ Exec \/ Post \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-------------------------------------------------------------------------------
Saw(o) == Len(SelectSeq(h, LAMBDA x : x.o = o))
Final == pc = "end"
\* C03
OneResult == Final => res # NoRes
AtMostOnce == Saw("exec") <= 1 /\ Saw("validate") <= 1
NoExecAfterFailure ==
  (Final /\ res.k = "error" /\ res.cause \in {"unknown", "badargs", "invalid", "validator", "pre"}) => Saw("exec") = 0
RejectOnlyMalformed ==
  (Final /\ res.k = "reject") => res.why \in {"missing_name", "missing_arguments", "tool_call_id_mismatch"}
NoExecWhenAborted == (aborted /\ pc = "exec") => FALSE
\* C04
PreOnce == (Final /\ Pres # {"absent"}) => Saw("pre") = (IF res.k = "reject" /\ res.why \in {"missing_name", "missing_arguments"} THEN 0 ELSE 1)
PostIffExecuted == (Final /\ Posts # {"absent"}) => Saw("post") = Saw("exec")
PreFirst == \A i \in DOMAIN h : h[i].o = "pre" => i = 2
Terminates == <>Final

Emit == Final => PrintT("@@" \o ToJson([h |-> h, res |-> res, call |-> call, aborted |-> aborted, pres |-> Pres # {"absent"}, posts |-> Posts # {"absent"}]))
===============================================================================
