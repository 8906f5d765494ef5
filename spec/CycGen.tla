------------------------------- MODULE CycGen -------------------------------
(* The defining product of cyclotomic polynomials, n by n, and every n in   *)
(* every kind of ring as sessions.                                          *)
EXTENDS CycMath, Json, IOUtils
Big == IOEnv.SIZE = "big"
N == IF Big THEN 120 ELSE 48
VARIABLES n
Init == n = 0
Next == n < N /\ n' = n + 1
Spec == Init /\ [][Next]_n
F2 == [k |-> "f2p"]
Pl(c) == [k |-> "poly", c |-> c]
Zm(p) == [k |-> "zm", m |-> p]
Qt(c, m) == [k |-> "quot", c |-> c, m |-> m]
Rings == <<Pl([k |-> "q"]), F2, Pl(Zm(2)), Pl(Zm(3)), Pl(Zm(7)), Pl(Qt(F2, <<0, 1, 2>>)), Pl(Qt(Pl(Zm(3)), <<1, 0, 1>>))>>
EmitIt == n < N => PrintT("SESSION " \o ToJson([k |-> "cyc", ops |-> [i \in DOMAIN Rings |->
              [op |-> "cyc", n |-> n + 1, ring |-> Rings[i], v |-> <<>>, r |-> 0, x |-> 0]]]))
NextE == Next /\ EmitIt
SpecE == Init /\ [][NextE]_n

Prod(D) == LET z == Pl([k |-> "z"])
               M(a, b) == [i \in 1..(Len(a) + Len(b) - 1) |->
                   FoldLeft(LAMBDA acc, j : acc + (IF i + 1 - j \in 1..Len(b) THEN a[j] * b[i + 1 - j] ELSE 0), 0, [j \in 1..Len(a) |-> j])]
           IN FoldSet(LAMBDA d, acc : M(Cyc(d), acc), <<1>>, D)
ProductLaw == n > 0 => Prod(DivsOf(n)) = [i \in 1..(n + 1) |-> IF i = 1 THEN -1 ELSE IF i = n + 1 THEN 1 ELSE 0]
DegreeLaw == n > 0 => EulerPhi(n) = Cardinality({k \in 1..n : IGcd(k, n) = 1}) /\ Cyc(n)[EulerPhi(n) + 1] = 1
PalinLaw == n > 1 => Reverse(Cyc(n)) = Cyc(n)
=============================================================================
