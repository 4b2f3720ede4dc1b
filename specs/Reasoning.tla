------------------------------ MODULE Reasoning ------------------------------
(***************************************************************************)
(* Extraction of reasoning blocks from a text that arrives character by    *)
(* character. The machine keeps the longest end of its input that may be   *)
(* the beginning of the tag it looks for; everything else goes out at      *)
(* once. It is checked, in every state, against a separation of the whole  *)
(* text that knows nothing of pieces.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Tokens,      \* sequences of characters the text is made of
  Tags,        \* tag names (sequences of characters)
  Starts,      \* subset of BOOLEAN: does the text start inside a block
  MaxTokens,
  Ends,        \* subset of {"close", "error"}
  Sim

VARIABLES cfg, s, st, log, n, fin
vars == <<cfg, s, st, log, n, fin>>

Sep == "|"
Open == <<"<">> \o cfg.tag \o <<">">>
Close == <<"<", "/">> \o cfg.tag \o <<">">>
TagOf(r) == IF r THEN Close ELSE Open
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

-------------------------------------------------------------------------------
\* the machine
Put(x, out) ==
  IF out = <<>> THEN x
  ELSE LET o == (IF x.sw /\ (IF x.r THEN x.someR ELSE x.someT) THEN <<Sep>> ELSE <<>>) \o out
       IN IF x.r THEN [x EXCEPT !.R = @ \o o, !.someR = TRUE, !.sw = FALSE]
          ELSE [x EXCEPT !.T = @ \o o, !.someT = TRUE, !.sw = FALSE]
Max0(X) == IF X = {} THEN 0 ELSE CHOOSE k \in X : \A j \in X : j <= k
Overlap(buf, tag) ==
  Max0({k \in 1..(Len(tag) - 1) : k <= Len(buf) /\ SubSeq(buf, Len(buf) - k + 1, Len(buf)) = SubSeq(tag, 1, k)})
Char(x, c) ==
  LET buf == x.pend \o <<c>> IN
  IF buf = TagOf(x.r) THEN [x EXCEPT !.r = ~@, !.pend = <<>>, !.sw = TRUE]
  ELSE LET k == Overlap(buf, TagOf(x.r))
       IN [Put(x, SubSeq(buf, 1, Len(buf) - k)) EXCEPT !.pend = SubSeq(buf, Len(buf) - k + 1, Len(buf))]
RECURSIVE Feed(_, _, _)
\* <<machine after the characters, emitted lengths after each of them>>
Feed(x, cs, l) ==
  IF cs = <<>> THEN <<x, l>>
  ELSE LET y == Char(x, Head(cs)) IN Feed(y, Tail(cs), Append(l, <<Len(y.T), Len(y.R)>>))

Init ==
  /\ \E t \in Tags, b \in Starts : cfg = [tag |-> t, start |-> b]
  /\ s = <<>> /\ n = 0 /\ fin = "open" /\ log = <<>>
  /\ st = [r |-> cfg.start, pend |-> <<>>, T |-> <<>>, R |-> <<>>, sw |-> FALSE, someT |-> FALSE, someR |-> FALSE]
Token ==
  /\ fin = "open" /\ n < MaxTokens
  /\ \E t \in Pick(Tokens) :
       LET f == Feed(st, t, log) IN s' = s \o t /\ st' = f[1] /\ log' = f[2]
  /\ n' = n + 1 /\ UNCHANGED <<cfg, fin>>
End ==
  /\ fin = "open" /\ (Sim => n > 3 /\ (n = MaxTokens \/ RandomElement(1..12) = 1))
  /\ \E e \in Pick(Ends) :
       /\ fin' = e
       /\ st' = IF e = "close" THEN [Put(st, st.pend) EXCEPT !.pend = <<>>] ELSE st
  /\ UNCHANGED <<cfg, s, log, n>>
Next == Token \/ End
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
\* the separation of a whole text
First(x, tag) == LET P == {i \in 1..(Len(x) - Len(tag) + 1) : SubSeq(x, i, i + Len(tag) - 1) = tag}
                 IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
RECURSIVE Blocks(_, _)
Blocks(x, r) ==
  LET i == First(x, TagOf(r)) IN
  IF i = 0 THEN << <<r, x>> >>
  ELSE << <<r, SubSeq(x, 1, i - 1)>> >> \o Blocks(SubSeq(x, i + Len(TagOf(r)), Len(x)), ~r)
RECURSIVE Join(_)
Join(bs) == IF bs = <<>> THEN <<>> ELSE IF Len(bs) = 1 THEN Head(bs) ELSE Head(bs) \o <<Sep>> \o Join(Tail(bs))
Of(bs, r) == [i \in DOMAIN SelectSeq(bs, LAMBDA b : b[1] = r) |-> SelectSeq(bs, LAMBDA b : b[1] = r)[i][2]]
Filled(bs) == SelectSeq(bs, LAMBDA b : b # <<>>)
All == Blocks(s, cfg.start)

SameAsWhole ==
  LET x == [Put(st, st.pend) EXCEPT !.pend = <<>>]
  IN fin # "error" => /\ x.T = Join(Filled(Of(All, FALSE)))
                      /\ x.R = Join(Filled(Of(All, TRUE)))
                      /\ x.r = All[Len(All)][1]
NothingHeldBack == Len(st.pend) < Len(TagOf(st.r)) /\ Overlap(st.pend, TagOf(st.r)) = Len(st.pend)
Monotone == \A i \in 1..(Len(log) - 1) : log[i][1] <= log[i + 1][1] /\ log[i][2] <= log[i + 1][2]

\* when the non-streaming extraction must agree exactly, not only up to separators next to empty blocks
Closed == ~All[Len(All)][1]
Emit ==
  (fin # "open") => PrintT("@@" \o ToJson([
    tag |-> cfg.tag, start |-> cfg.start, s |-> s, log |-> log, T |-> st.T, R |-> st.R, fin |-> fin, closed |-> Closed,
    tags |-> Len(All) - 1,
    filled |-> (\A i \in DOMAIN All : All[i][2] # <<>>)]))
===============================================================================
