------------------------------ MODULE StackGen ------------------------------
(* All histories of three stacks of bounded length, with pushes that cross  *)
(* the places where storage grows; all short lines for the tokenizer.       *)
EXTENDS StackMachine, Json, IOUtils
Depth == IF IOEnv.SIZE = "big" THEN 5 ELSE 4
MaxLine == IF IOEnv.SIZE = "big" THEN 6 ELSE 4
VARIABLES S, hist, line
gvars == <<S, hist, line>>
Op(o, d, a, n) == [op |-> o, d |-> d, a |-> a, v |-> 100 * (Len(hist) + 1), n |-> n, r |-> 0, x |-> 0]
Muts == { Op("push", d, d, n) : d \in {1, 2}, n \in {1, 10} } \cup { Op("pop", d, d, n) : d \in {1, 2}, n \in {1, 3} }
        \cup { Op(o, d, a, 0) : o \in {"copy", "asg"}, d \in {1, 2}, a \in {1, 2} }
Drain == <<Op("pop", 1, 1, 45), Op("pop", 2, 2, 45)>>
After(e) == IF e.op = "pop" THEN [e EXCEPT !.r = Pops(S[e.d], e.n)] ELSE IF e.op = "asg" THEN [e EXCEPT !.r = 1] ELSE e
Chars == {97, 32, 44}
TokOps == [m \in 1..3 |-> [op |-> "tok", line |-> line, seps |-> <<32>>, max |-> m - 1, r |-> 0, x |-> 0]]
          \o <<[op |-> "tok", line |-> line, seps |-> <<32, 44>>, max |-> 9, r |-> 0, x |-> 0],
               [op |-> "count", line |-> line, seps |-> <<44>>, max |-> 0, r |-> 0, x |-> 0],
               [op |-> "tok", line |-> line, seps |-> <<>>, max |-> 9, r |-> 0, x |-> 0],
               [op |-> "white", line |-> line, seps |-> <<>>, max |-> 0, r |-> 0, x |-> 0],
               [op |-> "chomp", line |-> line \o <<10>>, seps |-> <<>>, max |-> 0, r |-> 0, x |-> 0]>>
Init == S = NoStacks /\ hist = <<>> /\ line = <<>>
StackNext == /\ line = <<>> /\ Len(hist) < Depth
        /\ \E m \in Muts : LET p == StackStep(S, After(m))
                           IN p[1] /\ S' = p[2] /\ hist' = Append(hist, m)
        /\ (Len(hist) = Depth - 1 => PrintT("SESSION " \o ToJson([k |-> "stack", t |-> "int", ops |-> hist' \o Drain])))
        /\ UNCHANGED line
LineNext == /\ hist = <<>> /\ Len(line) < MaxLine
            /\ \E c \in Chars : line' = Append(line, c)
            /\ PrintT("SESSION " \o ToJson([k |-> "tok", ops |-> [i \in DOMAIN TokOps |-> [TokOps[i] EXCEPT !.line = IF i = Len(TokOps) THEN Append(line', 10) ELSE line']]]))
            /\ UNCHANGED <<S, hist>>
Spec == Init /\ [][StackNext \/ LineNext]_gvars

\* last in, first out, nothing lost
LifoLaw == \A d \in 1..3 : LET p == Pops(S[d], Len(S[d]) + 1)
                           IN /\ Reverse([i \in 1..Len(S[d]) |-> p[i][2]]) = S[d]
                              /\ p[Len(p)] = <<0, -7>>
\* tokens and separators together are the line; no token is empty or holds a separator
TokLaw == LET t == Tokens(line, <<32, 44>>)
          IN /\ FoldLeft(LAMBDA acc, w : acc \o w, <<>>, t) = SelectSeq(line, LAMBDA c : c \notin {32, 44})
             /\ \A i \in DOMAIN t : t[i] # <<>> /\ Codes(t[i]) \cap {32, 44} = {}
             /\ (line # <<>> => Len(t) <= (Len(line) + 1) \div 2)
=============================================================================
