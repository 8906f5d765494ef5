---------------------------- MODULE StackMachine ----------------------------
(***************************************************************************)
(* Three tstack objects as sequences (top last); tokens and lines.          *)
(* A step of a stack is one event e: push n consecutive values from v, pop  *)
(* n times, copy-construct, assign, or start anew.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NoStacks == <<<<>>, <<>>, <<>>>>
Pops(st, n) == [i \in 1..n |-> IF i <= Len(st) THEN <<1, st[Len(st) + 1 - i]>> ELSE <<0, -7>>]
StackStep(S, e) ==
  LET D == S[e.d]
      To(v) == [S EXCEPT ![e.d] = v]
  IN CASE e.op = "push" -> <<e.x = 0, To(D \o [i \in 1..e.n |-> e.v + i - 1])>>
       [] e.op = "pop" -> <<e.x = 0 /\ e.r = Pops(D, e.n), To(SubSeq(D, 1, IF e.n < Len(D) THEN Len(D) - e.n ELSE 0))>>
       [] e.op = "copy" -> <<e.x = 0, To(S[e.a])>>
       [] e.op = "asg" -> <<e.x = 0 /\ e.r = 1, To(S[e.a])>>
       [] e.op = "new" -> <<e.x = 0, To(<<>>)>>
       [] OTHER -> <<FALSE, S>>

\* ---- tokens: the maximal runs of characters that are not separators
Codes(s) == { s[i] : i \in DOMAIN s }
Starts(line, seps) == { i \in DOMAIN line : line[i] \notin Codes(seps) /\ (i = 1 \/ line[i - 1] \in Codes(seps)) }
RunEnd(line, seps, i) == CHOOSE j \in i..Len(line) : /\ \A k \in i..j : line[k] \notin Codes(seps)
                                                     /\ (j = Len(line) \/ line[j + 1] \in Codes(seps))
Tokens(line, seps) == LET st == SetToSortSeq(Starts(line, seps), LAMBDA x, y : x < y)
                      IN [i \in DOMAIN st |-> SubSeq(line, st[i], RunEnd(line, seps, st[i]))]
White == {9, 10, 11, 12, 13, 32}
TokPermit(e) ==
  CASE e.op = "tok" -> LET t == Tokens(e.line, e.seps)
                       IN e.ok = 1 /\ e.r = (IF Len(t) <= e.max THEN t ELSE SubSeq(t, 1, e.max))
    [] e.op = "count" -> e.ok = 1 /\ e.r = Len(Tokens(e.line, e.seps))
    [] e.op = "chomp" -> e.r = (IF e.line # <<>> /\ Last(e.line) = 10 THEN Front(e.line) ELSE e.line)
    [] e.op = "white" -> e.r = (IF Codes(e.line) \subseteq White THEN 1 ELSE 0)
    [] OTHER -> FALSE
=============================================================================
