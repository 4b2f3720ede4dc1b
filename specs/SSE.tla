--------------------------------- MODULE SSE ---------------------------------
(***************************************************************************)
(* Decoding of a server-sent event stream, line by line.  Lines are named  *)
(* by kind; how they are spelled (line endings, spacing, chunk boundaries) *)
(* is free and must not matter.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  MaxLines,
  Kinds,   \* subset of {"blank", "ok", "half1", "half2", "mention", "err", "done", "empty", "bad", "comment", "field", "junk"}
  Sim
ASSUME "blank" \in Kinds

VARIABLES lines, buf, delivered, failed, unspec, counts, pc
vars == <<lines, buf, delivered, failed, unspec, counts, pc>>

Payload == {"ok", "half1", "half2", "mention", "err", "done", "empty", "bad"}

Init == lines = <<>> /\ buf = <<>> /\ delivered = <<>> /\ failed = "" /\ unspec = FALSE /\ counts = <<>> /\ pc = "open"

\* what an event with these data lines is; entries of buf: [k |-> kind, n |-> line number]
Class(b) ==
  LET p == SelectSeq(b, LAMBDA x : x.k # "empty") IN
  IF b = <<>> THEN "none"
  ELSE IF p = <<>> THEN (IF Len(b) = 1 THEN "none" ELSE "unspec")
  ELSE IF Len(p) = 1 /\ p[1].k \in {"ok", "mention"} THEN "message"
  ELSE IF Len(p) = 2 /\ p[1].k = "half1" /\ p[2].k = "half2" THEN "message"
  ELSE IF Len(p) = 1 /\ p[1].k = "err" THEN "error"
  ELSE IF Len(p) = 1 /\ p[1].k = "done" THEN (IF Len(b) = 1 THEN "none" ELSE "unspec")
  ELSE "bad"

Line ==
  /\ pc = "open" /\ Len(lines) < MaxLines /\ failed = "" /\ ~unspec
  /\ \E k \in (IF Sim THEN {RandomElement(Kinds)} ELSE Kinds) :
       LET n == Len(lines) + 1
           c == IF k = "blank" THEN Class(buf) ELSE "none"
       IN /\ lines' = Append(lines, k)
          /\ buf' = IF k = "blank" THEN <<>> ELSE IF k \in Payload THEN Append(buf, [k |-> k, n |-> n]) ELSE buf
          /\ delivered' = IF c = "message" THEN Append(delivered, [j \in 1..Len(buf) |-> buf[j].n]) ELSE delivered
          /\ failed' = IF c = "error" THEN "remote" ELSE IF c = "bad" THEN "parse" ELSE ""
          /\ unspec' = (c = "unspec")
          /\ counts' = Append(counts, Len(delivered'))
  /\ UNCHANGED pc

\* what is left without a blank line is no event
End ==
  /\ pc = "open" /\ pc' = "end"
  /\ (Sim => (Len(lines) = MaxLines \/ failed # ""))
  /\ UNCHANGED <<lines, buf, delivered, failed, unspec, counts>>

Next == Line \/ End
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
\* every message comes from data lines between two consecutive blank lines, in order
Ordered == \A i, j \in DOMAIN delivered : i < j => delivered[i][Len(delivered[i])] < delivered[j][1]
Bounded == \A i \in DOMAIN delivered : \A m \in DOMAIN delivered[i] : lines[delivered[i][m]] \in Payload
FailsAtFirst == failed # "" => lines[Len(lines)] = "blank"
\* no message between two blank lines is forgotten
Complete ==
  \A n \in DOMAIN lines :
    (lines[n] \in {"ok", "mention"} /\ n < Len(lines) /\ lines[n + 1] = "blank" /\ (n = 1 \/ lines[n - 1] = "blank"))
      => \E i \in DOMAIN delivered : delivered[i] = <<n>>

\* one data line per event (a constraint for jobs about what single messages do)
Single == \A n \in DOMAIN lines : (lines[n] \in Payload /\ n > 1) => lines[n - 1] \notin Payload

Emit == (pc = "end" /\ ~unspec) => PrintT("@@" \o ToJson([lines |-> lines, delivered |-> delivered, failed |-> failed, counts |-> counts, buf |-> buf]))
===============================================================================
