------------------------------- MODULE LpGen --------------------------------
(***************************************************************************)
(* Exhaustive small scope for LpMath: one state per square matrix, per     *)
(* monic polynomial (with its companion matrix and, when irreducible, its  *)
(* field) and per base representation.  The specification's operators are  *)
(* checked against the theorems that define them; every state prints the   *)
(* calls that exercise it on the code.                                     *)
(***************************************************************************)
EXTENDS LpMath, Json, IOUtils
CJ == CASE IOEnv.KIND = "f2p" -> [k |-> "zm", m |-> 2]
        [] IOEnv.KIND = "f3p" -> [k |-> "zm", m |-> 3]
        [] IOEnv.KIND = "f5p" -> [k |-> "zm", m |-> 5]
        [] IOEnv.KIND = "g2p" -> [k |-> "quot", c |-> [k |-> "f2p"], m |-> <<0, 1>>]
        [] IOEnv.KIND = "f4p" -> [k |-> "quot", c |-> [k |-> "f2p"], m |-> <<0, 1, 2>>]
RJ == IF IOEnv.KIND = "f2p" THEN [k |-> "f2p"] ELSE [k |-> "poly", c |-> CJ]
RR == RingOf(RJ)
CC == CoefRing(RR)
q == Q(RR)
Big == IOEnv.SIZE = "big"
MaxN == IF q = 2 THEN 3 ELSE 2
MatMax == IF q = 2 THEN 511 ELSE IF q <= 4 \/ Big THEN q ^ 4 - 1 ELSE 80
MaxD == IF q = 2 THEN (IF Big THEN 6 ELSE 5) ELSE IF q <= 4 THEN (IF Big THEN 4 ELSE 3) ELSE 2
VARIABLES what, n, k, done
gvars == <<what, n, k, done>>
MatOf(nn, kk) == [i \in 1..nn |-> [j \in 1..nn |-> KthEl(CC, (kk \div (q ^ ((i - 1) * nn + j - 1))) % q)]]
A == MatOf(n, k)
F == MonicNth(RR, n, k)
RECURSIVE Enc(_, _)
Enc(R, v) == CASE R.k \in {"z", "zm"} -> v
               [] R.k = "f2p" -> SetToSortSeq(v, LAMBDA x, y : x < y)
               [] R.k = "poly" -> [i \in DOMAIN v |-> Enc(R.c, v[i])]
               [] R.k = "quot" -> Enc(R.c, v)
EncM(M) == [i \in DOMAIN M |-> [j \in DOMAIN M[i] |-> Enc(CC, M[i][j])]]
Op(o, M) == [op |-> o, A |-> EncM(M)]
Ext == RJ.k = "poly" /\ CJ.k = "quot"
NF == q ^ n
Prims == { j \in 1..(NF - 1) : HasFullOrder(RR, F, KthPoly(RR, j), NF - 1) }
Some(S, c) == { j \in S : Cardinality({ x \in S : x < j }) < c }
SeqSet(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Irr2(d) == { MonicNth(RR, d, j) : j \in { j \in 0..(2 ^ d - 1) : Irred(RR, MonicNth(RR, d, j)) } }
Targets == UNION { Irr2(d) : d \in 1..(IF Big THEN 6 ELSE 4) }
Conv == LET gs == Some(Prims, 2)
            ts == SetToSeq(Targets)
            all == [j \in 1..NF |-> Enc(RR, KthPoly(RR, j - 1))]
        IN FoldLeft(LAMBDA acc, g : acc \o [i \in DOMAIN ts |-> [op |-> "conv", m |-> Enc(RR, F), m2 |-> Enc(RR, ts[i]), g |-> Enc(RR, KthPoly(RR, g)),
              as |-> all, p |-> <<all[NF], all[1], all[2]>>, A |-> << <<all[2], all[NF]>>, <<all[1], all[NF - 1]>> >>]], <<>>, SeqSet(gs))
Calls == CASE what = "mat" -> <<Op("mchar", A)>> \o (IF Ext THEN <<Op("diag", A)>> ELSE <<>>)
           [] what = "poly" -> <<[op |-> "comp", f |-> Enc(RR, F)]>>
                \o (IF Irred(RR, F) THEN [j \in 1..(IF NF <= 128 THEN NF ELSE 128) |-> [op |-> "el", m |-> Enc(RR, F), a |-> Enc(RR, KthPoly(RR, j - 1))]] ELSE <<>>)
                \o (IF RJ.k = "f2p" /\ n <= 4 /\ Irred(RR, F) THEN Conv ELSE <<>>)
           [] what = "vec" -> <<[op |-> "vec", n |-> k, len |-> 3], [op |-> "vec", n |-> k, len |-> 1]>>
                \o (IF RJ.k = "f2p" THEN <<[op |-> "matrep", n |-> k, rows |-> 2, cols |-> 3], [op |-> "matrep", n |-> k, rows |-> 3, cols |-> 1]>> ELSE <<>>)
Init == /\ done = FALSE
        /\ \/ what = "mat" /\ n \in 1..MaxN /\ k \in 0..MatMax /\ k < q ^ (n * n)
           \/ what = "poly" /\ n \in 1..MaxD /\ k \in 0..(q ^ MaxD - 1) /\ k < q ^ n
           \/ what = "vec" /\ n = 1 /\ k \in 0..(q ^ 3 + q)
Emit == ~done /\ done' = TRUE /\ UNCHANGED <<what, n, k>> /\ PrintT("SESSION " \o ToJson([k |-> "lp", ring |-> RJ, ops |-> Calls]))
Spec == Init /\ [][Emit]_gvars

M1 == done /\ what = "mat"
P1 == done /\ what = "poly"
Chi == CharPoly(RR, A)
Tr(M) == FoldLeft(LAMBDA acc, i : Add(CC, acc, M[i][i]), Zero(CC), [i \in DOMAIN M |-> i])
CharLaw == M1 => LET c == TLCEval(Chi) d == CofDet(CC, A)
                 IN /\ MonicP(RR, c) /\ Deg(RR, c) = n
                    /\ Coef(RR, c, n - 1) = Neg(CC, Tr(A))
                    /\ Coef(RR, c, 0) = (IF n % 2 = 0 THEN d ELSE Neg(CC, d))
CayleyHamilton == M1 => IsZeroMat(CC, EvalMat(RR, Chi, A))
\* diagonalizable over the base field itself: some invertible P with P^-1 A P diagonal
Diagonal(M) == \A i \in DOMAIN M : \A j \in DOMAIN M : i # j => IsZero(CC, M[i][j])
DiagLaw == (M1 /\ n <= 2 /\ q <= 3) =>
  LET fs == SpecFactors(RR, Chi)
      split == \A i \in DOMAIN fs : Deg(RR, fs[i]) = 1
  IN (split /\ Diagonalizable(RR, Radical(RR, fs), A))
       <=> \E j \in 0..(q ^ (n * n) - 1) : LET S == MatOf(n, j) IN Invertible(CC, S) /\ Diagonal(MMul(CC, MInv(CC, S), MMul(CC, A, S)))
Companion(f) == MkMat(n, n, LAMBDA i, j : IF i = 1 THEN Neg(CC, Coef(RR, f, n - j)) ELSE IF j = i - 1 THEN One(CC) ELSE Zero(CC))
CompanionLaw == P1 => CompanionOk(RR, F, Companion(F))
\* exactly one polynomial is the minimal polynomial; the characteristic polynomial of
\* multiplication is a power of it
ElemLaw == (P1 /\ NF <= 32 /\ Irred(RR, F)) =>
  \A j \in 0..(NF - 1) :
    LET a == KthPoly(RR, j)
        ms == { MonicNth(RR, d, i) : <<d, i>> \in { <<d, i>> \in (1..n) \X (0..(NF - 1)) : i < q ^ d /\ MinPolyIs(RR, F, a, MonicNth(RR, d, i)) } }
    IN /\ Cardinality(ms) = 1
       /\ \A f \in ms : /\ CharPoly(RR, MulMatrix(RR, F, a)) = Pow(RR, f, n \div Deg(RR, f))
                        /\ Irred(RR, f) /\ Deg(RR, f) = FrobLen(RR, F, a)
\* x |-> t with F(t) = 0 is a ring homomorphism, injective
IsoLaw == (P1 /\ RJ.k = "f2p" /\ n <= 3 /\ Irred(RR, F)) =>
  \A m2 \in Irr2(n) : LET K1 == Residues(RR, F) K2 == Residues(RR, m2) IN
    \A t \in { b \in Elements(K2) : MapAt(K2, b, F) = Zero(K2) } :
      /\ \A a, b \in Elements(K1) : /\ MapAt(K2, t, Add(K1, a, b)) = Add(K2, MapAt(K2, t, a), MapAt(K2, t, b))
                                    /\ MapAt(K2, t, Mul(K1, a, b)) = Mul(K2, MapAt(K2, t, a), MapAt(K2, t, b))
      /\ Cardinality({ MapAt(K2, t, a) : a \in Elements(K1) }) = NF
RECURSIVE Undigits(_, _)
Undigits(s, j) == IF j = 0 THEN 0 ELSE Undigits(s, j - 1) * q + ElIndex(CC, s[j])
VecLaw == (done /\ what = "vec" /\ k < q ^ 3) => LET s == BaseDigits(CC, k, q, 3) IN Undigits(s, 3) = k
=============================================================================
