------------------------------- MODULE FinGen -------------------------------
(***************************************************************************)
(* Exhaustive small scope for FinMath: one state per polynomial (or pair   *)
(* of residues).  The operators are checked against the definitions of the *)
(* words, and every state prints the calls that exercise it on the code.   *)
(***************************************************************************)
EXTENDS FinMath, Json, IOUtils
RJ == CASE IOEnv.KIND = "f2p" -> [k |-> "f2p"]
        [] IOEnv.KIND = "f3p" -> [k |-> "poly", c |-> [k |-> "zm", m |-> 3]]
        [] IOEnv.KIND = "f5p" -> [k |-> "poly", c |-> [k |-> "zm", m |-> 5]]
        [] IOEnv.KIND = "f4p" -> [k |-> "poly", c |-> [k |-> "quot", c |-> [k |-> "f2p"], m |-> <<0, 1, 2>>]]
        [] IOEnv.KIND = "z" -> [k |-> "z"]
RR == RingOf(RJ)
MaxK == CASE IOEnv.KIND = "f2p" -> IF IOEnv.SIZE = "big" THEN 2047 ELSE 255
         [] IOEnv.KIND = "f3p" -> IF IOEnv.SIZE = "big" THEN 728 ELSE 242
         [] IOEnv.KIND = "f5p" -> 124
         [] IOEnv.KIND = "f4p" -> IF IOEnv.SIZE = "big" THEN 1023 ELSE 255
         [] IOEnv.KIND = "z" -> IF IOEnv.SIZE = "big" THEN 200 ELSE 60
IsZ == IOEnv.KIND = "z"
F2 == IOEnv.KIND = "f2p"
VARIABLES k, done
gvars == <<k, done>>
A == IF IsZ THEN k ELSE KthPoly(RR, k)
RECURSIVE Enc(_, _)
Enc(R, v) == CASE R.k \in {"z", "zm"} -> v
               [] R.k = "f2p" -> SetToSortSeq(v, LAMBDA x, y : x < y)
               [] R.k = "poly" -> [i \in DOMAIN v |-> Enc(R.c, v[i])]
               [] R.k = "quot" -> Enc(R.c, v)
EA == Enc(RR, A)
D0 == IF IsZ THEN 0 ELSE Deg(RR, A)
U(o) == [op |-> o, a |-> EA, fs |-> <<>>]
\* residues modulo A to use as elements: all for small moduli
NRes == IF IsZ THEN k ELSE Q(RR) ^ D0
Probe == { j \in 0..(NRes - 1) : NRes <= 16 \/ j <= 8 \/ j >= NRes - 3 }
El(j) == IF IsZ THEN j ELSE Enc(RR, KthPoly(RR, j))
Sorted0(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Units == [j \in 1..Len(Sorted0(Probe)) |-> [op |-> "order", m |-> EA, a |-> El(Sorted0(Probe)[j])]]
Logs == IF NRes > 9 THEN <<[op |-> "log", m |-> EA, g |-> El(NRes - 1), a |-> El(NRes \div 2)], [op |-> "log", m |-> EA, g |-> El(2), a |-> El(3)],
                           [op |-> "log", m |-> EA, g |-> El(NRes \div 3), a |-> El(NRes - 2)]>>
        ELSE [j \in 1..(NRes * NRes) |-> [op |-> "log", m |-> EA, g |-> El((j - 1) \div NRes), a |-> El((j - 1) % NRes)]]
Group == IF IsZ \/ F2 \/ IOEnv.KIND = "f4p"
         THEN (IF NRes <= 256 THEN <<[op |-> "gen", m |-> EA, fs |-> <<>>]>> ELSE <<>>) \o Units \o (IF NRes <= 300 THEN Logs ELSE <<>>) ELSE <<>>
ML(t) == [op |-> "mlist", m |-> EA, t |-> t]
GL(t, j) == [op |-> "glist", m |-> EA, a |-> El(j), t |-> t]
Lists0 == IF NRes > 128 THEN <<>> ELSE <<ML("all"), ML("units"), ML("nonunits")>>
          \o (IF (IsZ \/ F2) /\ NRes <= 32 THEN [j \in 1..NRes |-> GL("multiples", j - 1)] \o [j \in 1..NRes |-> GL("relprime", j - 1)] ELSE <<>>)
Calls == IF IsZ THEN <<U("factor"), U("divs"), U("ndivs"), U("mpds"), [op |-> "factor", a |-> -k, fs |-> <<>>]>> \o Group \o (IF k >= 2 THEN Lists0 ELSE <<>>)
         ELSE <<U("factor")>> \o (IF k > 0 THEN <<U("totient"), U("ndivs"), U("divs"), U("mpds")>> ELSE <<>>)
              \o (IF D0 >= 1 THEN <<U("irred")>> \o Group \o Lists0 ELSE <<>>)
              \o (IF F2 /\ D0 >= 1 THEN <<[op |-> "period", m |-> EA], [op |-> "prim", m |-> EA, fs |-> <<>>]>> ELSE <<>>)
              \o (IF IOEnv.KIND = "f4p" /\ D0 >= 1 THEN <<[op |-> "roots", a |-> EA]>> ELSE <<>>)
Init == k \in (IF IsZ THEN 2 ELSE 0)..MaxK /\ done = FALSE
Emit == ~done /\ done' = TRUE /\ UNCHANGED k /\ PrintT("SESSION " \o ToJson([k |-> "fin", ring |-> RJ, ops |-> Calls]))
Spec == Init /\ [][Emit]_gvars

P == done /\ ~IsZ
MA == Monic(RR, A)
\* irreducible means: degree >= 1 and no monic divisor of degree 1..deg-1
IrredLaw == (P /\ D0 <= 7) => (Irred(RR, A) <=> D0 >= 1 /\ \A d \in 1..(D0 - 1) : \A j \in 0..(Q(RR) ^ d - 1) : ~Divides(RR, MonicNth(RR, d, j), A))
\* unique factorization: the spec's own factors are irreducible and multiply back
FactorLaw == (P /\ D0 >= 1) => LET B == SpecBag(RR, A) IN (\A f \in DOMAIN B : Irred(RR, f)) /\ Unfactor(RR, One(RR), B) = MA
TotientLaw == (P /\ D0 >= 1 /\ NRes <= 128) =>
  PolyTotient(RR, SpecBag(RR, A)) = Cardinality({ a \in AllResidues(RR, A) : UnitIn(RR, A, a) })
DivisorLaw == (P /\ D0 >= 1 /\ D0 <= 6) =>
  NumDivisors(SpecBag(RR, A)) = Cardinality({ <<d, j>> \in (0..D0) \X (0..(NRes - 1)) : j < Q(RR) ^ d /\ Divides(RR, MonicNth(RR, d, j), A) })
\* orders: IsOrder holds for exactly the least exponent
OrderLaw == (done /\ ((IsZ /\ k <= 40) \/ (P /\ D0 >= 1 /\ NRes <= 16))) =>
  \A a \in { x \in AllResidues(RR, A) : UnitIn(RR, A, x) } :
    LET n == Cardinality(Generated(RR, A, a)) IN \A r \in 1..NRes : IsOrder(RR, A, a, r) <=> r = n
GenLaw == (done /\ ((IsZ /\ k <= 40) \/ (P /\ D0 >= 1 /\ NRes <= 16))) =>
  \A a \in AllResidues(RR, A) : HasFullOrder(RR, A, a, Phi(RR, NoFs, A)) <=>
     UnitIn(RR, A, a) /\ Generated(RR, A, a) = { x \in AllResidues(RR, A) : UnitIn(RR, A, x) }
ZLaw == (done /\ IsZ) => LET B == Bagged(ZFactors(k)) IN (\A f \in DOMAIN B : IsPrime(f)) /\ Unfactor(RR, 1, B) = k
           /\ NumDivisors(B) = Cardinality({ d \in 1..k : k % d = 0 })
IndexLaw == P => PolyIndex(RR, A) = k /\ (k > 0 => Less(RR, KthPoly(RR, k - 1), A))
=============================================================================
