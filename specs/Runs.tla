--------------------------------- MODULE Runs ---------------------------------
(***************************************************************************)
(* Two runs of the agent loop in progress at the same time, with the spans *)
(* which they have when they are instrumented.                             *)
(*                                                                         *)
(* The system is the asynchronous product of two instances of ChatLoop:    *)
(* whatever one run does, nothing of the other changes.  order records in  *)
(* which order the environments of the two runs acted; a replay plays them *)
(* in that order, so that every request, response, tool, callback and      *)
(* consumer action of one run may fall between any two of the other.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS ApiA, ApiB, MaxSteps, CallCounts, CallKinds, ToolOuts, StopAns, Preps, StepCbs, FinCbs, UsagesA, UsagesB, Texts,
  Reasons, Mids, WaitFails, MidFailsA, MidFailsB, Ends, AbortAt, Fetches, MaxCancels, EvThrows, Sim

VARIABLES pcA, nA, msgsA, stepsA, curA, tsA, stoppedA, abortedA, fetchModeA, evAtA, ovA, errA, evsA, txtsA, rsnA, fullA, cutA, hA, spA
VARIABLES pcB, nB, msgsB, stepsB, curB, tsB, stoppedB, abortedB, fetchModeB, evAtB, ovB, errB, evsB, txtsB, rsnB, fullB, cutB, hB, spB
VARIABLE order

A == INSTANCE Spans WITH sp <- spA, Api <- ApiA, Usages <- UsagesA, MidFails <- MidFailsA, Mids <- Mids /\ ApiA # "gen",
  pc <- pcA, n <- nA, msgs <- msgsA, steps <- stepsA, cur <- curA, ts <- tsA, stopped <- stoppedA, aborted <- abortedA,
  fetchMode <- fetchModeA, evAt <- evAtA, ov <- ovA, err <- errA, evs <- evsA, txts <- txtsA, rsn <- rsnA, full <- fullA,
  cut <- cutA, h <- hA
B == INSTANCE Spans WITH sp <- spB, Api <- ApiB, Usages <- UsagesB, MidFails <- MidFailsB, Mids <- Mids /\ ApiB # "gen",
  pc <- pcB, n <- nB, msgs <- msgsB, steps <- stepsB, cur <- curB, ts <- tsB, stopped <- stoppedB, aborted <- abortedB,
  fetchMode <- fetchModeB, evAt <- evAtB, ov <- ovB, err <- errB, evs <- evsB, txts <- txtsB, rsn <- rsnB, full <- fullB,
  cut <- cutB, h <- hB

varsA == <<pcA, nA, msgsA, stepsA, curA, tsA, stoppedA, abortedA, fetchModeA, evAtA, ovA, errA, evsA, txtsA, rsnA, fullA, cutA, hA, spA>>
varsB == <<pcB, nB, msgsB, stepsB, curB, tsB, stoppedB, abortedB, fetchModeB, evAtB, ovB, errB, evsB, txtsB, rsnB, fullB, cutB, hB, spB>>

Envs(h) == Len(SelectSeq(h, LAMBDA x : "e" \in DOMAIN x))

Init == A!SInit /\ B!SInit /\ order = <<>>

\* a run reacts to completion before its environment, or the other run, goes on: what it does is seen by nobody else
StepA == A!SNext /\ UNCHANGED varsB /\ order' = IF Envs(hA') > Envs(hA) THEN Append(order, "a") ELSE order
StepB == B!SNext /\ UNCHANGED varsA /\ order' = IF Envs(hB') > Envs(hB) THEN Append(order, "b") ELSE order
Next ==
  IF Sim
  THEN LET w == {x \in {"a", "b"} : (x = "a" /\ ~A!Terminal) \/ (x = "b" /\ ~B!Terminal)} IN
       /\ w # {}
       /\ IF RandomElement(w) = "a" THEN StepA ELSE StepB
  ELSE StepA \/ StepB
Spec == Init /\ [][Next]_<<varsA, varsB, order>>

\* each run is a behaviour of ChatLoop, and satisfies what is true of a run alone
Projection == [][(A!SNext \/ UNCHANGED varsA) /\ (B!SNext \/ UNCHANGED varsB)]_<<varsA, varsB>>
HistoryInv == A!HistoryInv /\ B!HistoryInv
HistoryEnd == A!HistoryEnd /\ B!HistoryEnd
ContinueInv == A!ContinueInv /\ B!ContinueInv
OneRequestPerStep == A!OneRequestPerStep /\ B!OneRequestPerStep
OneStopPerStep == A!OneStopPerStep /\ B!OneStopPerStep
StepsOnce == A!StepsOnce /\ B!StepsOnce
FinishOnce == A!FinishOnce /\ B!FinishOnce
OneChatSpan == A!OneChatSpan /\ B!OneChatSpan
OnePerTool == A!OnePerTool /\ B!OnePerTool
Nested == A!Nested /\ B!Nested
AllEnded == A!AllEnded /\ B!AllEnded
EndOnce == A!EndOnce /\ B!EndOnce
OrderInv == Len(order) = Envs(hA) + Envs(hB)

Emit == (A!Terminal /\ B!Terminal) => PrintT("@@" \o ToJson(
  [order |-> order,
   a |-> [api |-> ApiA, h |-> hA, msgs |-> msgsA, steps |-> stepsA, err |-> errA, evs |-> evsA, txts |-> txtsA,
          rsn |-> rsnA, full |-> fullA, cut |-> cutA, sp |-> spA],
   b |-> [api |-> ApiB, h |-> hB, msgs |-> msgsB, steps |-> stepsB, err |-> errB, evs |-> evsB, txts |-> txtsB,
          rsn |-> rsnB, full |-> fullB, cut |-> cutB, sp |-> spB]]))
===============================================================================
