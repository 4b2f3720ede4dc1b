------------------------------- MODULE Smooth --------------------------------
(***************************************************************************)
(* Smoothing of a text stream under a virtual clock. Pieces of text arrive *)
(* at any time; what is ready goes out one piece per delay; a piece ends   *)
(* at a boundary of the chosen chunking, except the rest at the end.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Kinds,       \* subset of {"word", "line", "comma", "char", "pair", "never"}: the chunking
  Delays,      \* subset of Nat
  Pieces,      \* what may arrive: sequences of "a", " ", "n" (newline), ","
  MaxPieces, MaxTime,
  Ends,        \* subset of {"close", "error"}
  Sim

VARIABLES cfg, now, queue, buf, busy, out, fin, closed, all, h
\* queue: pieces not yet taken; busy: time at which the current wait ends, -1 when there is none
\* fin: what happened to the input; closed: state of the output; out: <<piece, time>>
vars == <<cfg, now, queue, buf, busy, out, fin, closed, all, h>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

Space == {" ", "n"}
Min(X) == CHOOSE x \in X : \A y \in X : x <= y
Max(X) == CHOOSE x \in X : \A y \in X : x >= y
\* length of the first piece of b, 0 when b contains no boundary
FirstWhere(b, P(_)) == LET X == {i \in DOMAIN b : P(i)} IN IF X = {} THEN 0 ELSE Min(X)
Ready(b) ==
  CASE cfg.kind = "line" -> FirstWhere(b, LAMBDA i : b[i] = "n")
    [] cfg.kind = "comma" -> FirstWhere(b, LAMBDA i : b[i] = ",")
    [] cfg.kind = "char" -> IF b = <<>> THEN 0 ELSE 1
    [] cfg.kind = "pair" -> FirstWhere(b, LAMBDA i : i > 1 /\ b[i] = "a" /\ b[i - 1] = "a")
    [] cfg.kind = "never" -> 0
    [] cfg.kind = "word" ->
         \* a word and the white space after it, as far as it has arrived
         LET w == FirstWhere(b, LAMBDA i : b[i] \notin Space)
             e == IF w = 0 THEN 0 ELSE FirstWhere(b, LAMBDA i : i > w /\ b[i] \in Space)
             f == IF e = 0 THEN 0 ELSE FirstWhere(b, LAMBDA i : i > e /\ b[i] \notin Space)
         IN IF e = 0 THEN 0 ELSE IF f = 0 THEN Len(b) ELSE f - 1
Drop(b, k) == SubSeq(b, k + 1, Len(b))
RECURSIVE Cat(_)
Cat(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o Cat(Tail(x))
Outs == Cat([i \in DOMAIN out |-> out[i][1]])

\* the smoother when nothing holds it: takes what has arrived, lets one piece out and waits, or ends
RECURSIVE Run(_)
Run(x) ==
  IF x.busy # -1 \/ x.closed # "open" THEN x
  ELSE LET k == Ready(x.buf) IN
    IF x.taken /\ k > 0 THEN [x EXCEPT !.out = Append(@, <<SubSeq(x.buf, 1, k), now'>>), !.buf = Drop(@, k), !.busy = now' + cfg.delay]
    ELSE IF x.queue # <<>> THEN Run([x EXCEPT !.queue = Tail(@), !.buf = @ \o Head(x.queue), !.taken = TRUE])
    ELSE IF x.fin = "close" THEN [x EXCEPT !.closed = "closed", !.out = IF x.buf = <<>> THEN @ ELSE Append(@, <<x.buf, now'>>), !.buf = <<>>]
    ELSE x
\* nothing is found in a rest that had no boundary before
Go(q, b, bz, f, c, o) ==
  LET x == Run([queue |-> q, buf |-> b, busy |-> bz, fin |-> f, closed |-> c, out |-> o, taken |-> TRUE])
  IN queue' = x.queue /\ buf' = x.buf /\ busy' = x.busy /\ closed' = x.closed /\ out' = x.out
Log(x) == h' = Append(h, x @@ [n |-> Len(out'), closed |-> closed', now |-> now'])

Init ==
  /\ \E k \in Kinds, d \in Delays : cfg = [kind |-> k, delay |-> d]
  /\ now = 0 /\ queue = <<>> /\ buf = <<>> /\ busy = -1 /\ out = <<>> /\ fin = "open" /\ closed = "open" /\ all = <<>> /\ h = <<>>
Written == Len(SelectSeq(h, LAMBDA x : x.o = "write"))
Write ==
  /\ fin = "open" /\ Written < MaxPieces
  /\ \E p \in Pick(Pieces) :
       /\ now' = now /\ fin' = fin /\ all' = all \o p
       /\ Go(Append(queue, p), buf, busy, fin, closed, out)
       /\ Log([o |-> "write", p |-> p])
  /\ UNCHANGED cfg
End ==
  /\ fin = "open" /\ (Sim => Written > 2)
  /\ \E e \in Pick(Ends) :
       /\ now' = now /\ fin' = e /\ all' = all
       /\ IF e = "close" THEN Go(queue, buf, busy, "close", closed, out)
          \* what was on its way may or may not still come out
          ELSE closed' = "errored" /\ busy' = -1 /\ UNCHANGED <<queue, buf, out>>
       /\ Log([o |-> e])
  /\ UNCHANGED cfg
\* the wait ends
Elapse ==
  /\ busy # -1 /\ closed = "open"
  /\ now' = busy /\ fin' = fin /\ all' = all
  /\ Go(queue, buf, -1, fin, closed, out)
  /\ Log([o |-> "elapse"])
  /\ UNCHANGED cfg
\* time passes, too little to end the wait (or with nothing to wait for): nothing comes out
Idle ==
  /\ closed = "open" /\ fin = "open"
  /\ (h # <<>> => h[Len(h)].o # "idle")
  /\ (busy # -1 => busy > now + 1)
  /\ now < MaxTime /\ now' = now + 1 /\ fin' = fin /\ all' = all
  /\ UNCHANGED <<queue, buf, busy, closed, out, cfg>>
  /\ Log([o |-> "idle"])
Next == Write \/ End \/ Elapse \/ Idle
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
\* nothing lost, duplicated or reordered
Lossless == closed # "errored" => Outs \o buf \o Cat(queue) = all
Whole == closed = "closed" => Outs = all
\* pieces end at boundaries, whatever came before them; only the last may be a rest
Boundary(p, next) ==
  CASE cfg.kind = "line" -> p[Len(p)] = "n"
    [] cfg.kind = "comma" -> p[Len(p)] = ","
    [] cfg.kind = "char" -> Len(p) = 1
    [] cfg.kind = "pair" -> Len(p) > 1 /\ p[Len(p)] = "a" /\ p[Len(p) - 1] = "a"
    [] cfg.kind = "never" -> FALSE
    [] cfg.kind = "word" -> p[Len(p)] \in Space
AtBoundary == \A i \in DOMAIN out : (i < Len(out) \/ closed # "closed") => Boundary(out[i][1], <<>>)
Paced == \A i \in 1..(Len(out) - 1) : (i + 1 < Len(out) \/ closed # "closed") => out[i + 1][2] - out[i][2] >= cfg.delay
\* nothing that is ready is held back without a wait
Prompt == (busy = -1 /\ closed = "open") => Ready(buf) = 0 /\ queue = <<>>

Done == closed # "open"
Emit == Done => PrintT("@@" \o ToJson([cfg |-> cfg, h |-> h, out |-> out, all |-> all]))
===============================================================================
