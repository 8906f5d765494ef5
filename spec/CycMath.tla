------------------------------ MODULE CycMath ------------------------------
(***************************************************************************)
(* Cyclotomic polynomials by Moebius inversion of x^n - 1 = prod Phi_d,    *)
(* with integer power series (the library divides one by one), and the     *)
(* reduction of rational polynomials to other coefficient fields.          *)
(***************************************************************************)
EXTENDS Algebra

DivsOf(n) == { d \in 1..n : n % d = 0 }
PrimeFs(n) == { p \in 2..n : n % p = 0 /\ \A q \in 2..(p - 1) : p % q # 0 }
Mu(n) == IF \E p \in PrimeFs(n) : n % (p * p) = 0 THEN 0
         ELSE IF Cardinality(PrimeFs(n)) % 2 = 0 THEN 1 ELSE -1
EulerPhi(n) == FoldSet(LAMBDA p, acc : (acc \div p) * (p - 1), n, PrimeFs(n))

\* power series, sequences of the coefficients of x^0..x^(len-1)
TimesBin(s, d) == [i \in DOMAIN s |-> IF i > d THEN s[i] - s[i - d] ELSE s[i]]       \* times 1 - x^d
RECURSIVE OverBin(_, _, _)
OverBin(s, d, i) == IF i > Len(s) THEN s                                              \* divided by 1 - x^d
                    ELSE OverBin(IF i > d THEN [s EXCEPT ![i] = @ + s[i - d]] ELSE s, d, i + 1)
Cyc(n) == IF n = 1 THEN <<-1, 1>>
          ELSE FoldLeft(LAMBDA s, d : LET m == Mu(n \div d)
                                      IN IF m = 1 THEN TimesBin(s, d) ELSE IF m = -1 THEN OverBin(s, d, 1) ELSE s,
                        [i \in 1..(EulerPhi(n) + 1) |-> IF i = 1 THEN 1 ELSE 0],
                        SetToSortSeq(DivsOf(n), LAMBDA x, y : x < y))

\* the image of the rational num/den in the prime field of characteristic p
RatOk(q, p) == q[2] % p # 0
RatTo(q, p) == MulMod(q[1] % p, InvMod(q[2] % p, p), p)
\* the ring R = C[x]; a sequence of elements of the prime field becomes an element of R
IntoRing(R, s) == LET C == CoefRing(R) IN FromCoefs(R, [i \in DOMAIN s |-> Embed(C, s[i])])

CycPermit(e) ==
  LET R == RingOf(e.ring)
  IN CASE e.op = "cyc" ->
            IF e.n < 1 THEN e.x = 1
            ELSE e.x = 0 /\ (IF R.k = "poly" /\ R.c.k = "q"
                             THEN e.r = [i \in 1..(EulerPhi(e.n) + 1) |-> <<Cyc(e.n)[i], 1>>]
                             ELSE Dec(R, e.r) = IntoRing(R, Cyc(e.n)))
       [] e.op = "conv" ->
            LET p == Char(CoefRing(R))
            IN IF \A i \in DOMAIN e.v : RatOk(e.v[i], p)
               THEN e.x = 0 /\ Dec(R, e.r) = IntoRing(R, [i \in DOMAIN e.v |-> RatTo(e.v[i], p)])
               ELSE e.x = 1
       [] e.op = "rat" -> LET p == IF e.n = 0 THEN 2 ELSE e.n
                          IN IF RatOk(e.v, p) THEN e.x = 0 /\ e.r = RatTo(e.v, p) ELSE e.x = 1
       [] OTHER -> FALSE
=============================================================================
