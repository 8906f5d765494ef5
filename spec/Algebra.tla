------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* The mathematical objects SPFFL computes with, as one tower of rings.    *)
(*                                                                         *)
(* A ring is a record with a kind k:                                       *)
(*   "z"     the integers                                                  *)
(*   "zm"    Z/m                       (field m)     -> intmod_t, bit_t    *)
(*   "q"     the rationals             (<<num,den>>) -> intrat_t           *)
(*   "f2p"   F2[x], an element is the finite set of its exponents          *)
(*                                                   -> f2_poly_t          *)
(*   "poly"  R.c[x], an element is a little-endian coefficient sequence    *)
(*           with no trailing zero     (field c)     -> fp_poly_t,         *)
(*                                     f2n_poly_t, fpn_poly_t, q_poly_t    *)
(*   "quot"  R.c/(R.m)                 (fields c, m) -> *_polymod_t        *)
(*   "frac"  field of fractions of R.c (field c)     -> *_polyrat_t        *)
(*                                                                         *)
(* Everything is defined from the definitions of the mathematics, not from *)
(* the C++ algorithms.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Range0(s) == { s[i] : i \in DOMAIN s }
Abs(n) == IF n < 0 THEN -n ELSE n
MaxOf(S) == FoldSet(LAMBDA x, y : IF x > y THEN x ELSE y, -1, S)
SDiff(a, b) == (a \ b) \cup (b \ a)
Desc(hi, lo) == [i \in 1..(IF hi >= lo THEN hi - lo + 1 ELSE 0) |-> hi - i + 1]

\* ---- integers and Z/m --------------------------------------------------
RECURSIVE IGcd0(_, _)
IGcd0(a, b) == IF b = 0 THEN a ELSE IGcd0(b, a % b)
IGcd(a, b) == IGcd0(Abs(a), Abs(b))

AddMod(a, b, m) == IF b # 0 /\ a >= m - b THEN a - (m - b) ELSE a + b
RECURSIVE MulModSlow(_, _, _)
MulModSlow(a, b, m) ==
  IF b = 0 THEN 0
  ELSE LET h == MulModSlow(a, b \div 2, m)
           t == AddMod(h, h, m)
       IN IF b % 2 = 1 THEN AddMod(t, a, m) ELSE t
MulMod(a, b, m) == IF m <= 46340 THEN (a * b) % m ELSE MulModSlow(a, b, m)
RECURSIVE PowModI(_, _, _)
PowModI(a, n, m) ==
  IF n = 0 THEN 1 % m
  ELSE LET h == PowModI(a, n \div 2, m)
           t == MulMod(h, h, m)
       IN IF n % 2 = 1 THEN MulMod(t, a, m) ELSE t
\* inverse of the unit a modulo m, by the extended Euclidean identity
RECURSIVE EuInv(_, _, _, _, _)
EuInv(r0, r1, s0, s1, m) ==
  IF r1 = 0 THEN s0
  ELSE LET q == r0 \div r1
       IN EuInv(r1, r0 - q * r1, s1,
                AddMod(s0, (m - MulMod(q % m, s1, m)) % m, m), m)
InvMod(a, m) == IF m = 1 THEN 0 ELSE EuInv(a, m, 1, 0, m)

\* rationals
QNorm(n, d) == LET g == IGcd(n, d)
                   s == IF d < 0 THEN -1 ELSE 1
               IN <<s * (n \div g), s * (d \div g)>>
\* n \div g is exact here, so rounding direction is irrelevant

\* ---- the ring tower ----------------------------------------------------
\* Every ring operation that recurses down the tower goes through the one
\* recursive operator Rg, defined below; the leaf rings are short-circuited.
\* (TLC's level analysis explores every path of mutually recursive operators.)
RECURSIVE Rg(_, _, _, _)
Zero(R)    == IF R.k \in {"zm", "z"} THEN 0 ELSE IF R.k = "f2p" THEN {} ELSE IF R.k = "poly" THEN <<>> ELSE Rg("zero", R, 0, 0)
Embed(R, n) == IF R.k = "zm" THEN n % R.m ELSE Rg("embed", R, n, 0)
One(R)     == Embed(R, 1)
Add(R, a, b) == IF R.k = "zm" THEN AddMod(a, b, R.m) ELSE IF R.k = "f2p" THEN SDiff(a, b) ELSE Rg("add", R, a, b)
Neg(R, a)  == IF R.k = "zm" THEN (R.m - a) % R.m ELSE IF R.k = "f2p" THEN a ELSE Rg("neg", R, a, 0)
Mul(R, a, b) == IF R.k = "zm" THEN MulMod(a, b, R.m) ELSE Rg("mul", R, a, b)
Sub(R, a, b) == Add(R, a, Neg(R, b))
Inv(R, a)  == IF R.k = "zm" THEN InvMod(a, R.m) ELSE Rg("inv", R, a, 0)
IsUnit(R, a) == Rg("isunit", R, a, 0)
DivMod(R, a, b) == Rg("divmod", R, a, b)
Eq(R, a, b) == IF R.k = "frac" THEN Rg("eqfrac", R, a, b) ELSE a = b
IsZero(R, a) == IF R.k = "frac" THEN a[1] = Zero(R.c) ELSE a = Zero(R)
Less(R, a, b) == IF R.k \in {"z", "zm"} THEN a < b ELSE Rg("less", R, a, b)
PGcd(R, a, b) == Rg("pgcd", R, a, b)
Monic(R, a) == IF R.k = "f2p" \/ a = <<>> THEN a ELSE Rg("monic", R, a, 0)
WF(R, a)   == Rg("wf", R, a, 0)
RECURSIVE Char(_)
RECURSIVE LastNonzero(_, _, _)
LastNonzero(C, s, i) == IF i = 0 THEN 0
                        ELSE IF ~Eq(C, s[i], Zero(C)) THEN i
                        ELSE LastNonzero(C, s, i - 1)
PNorm(C, s) == SubSeq(s, 1, LastNonzero(C, s, Len(s)))

CoefRing(R) == IF R.k = "f2p" THEN [k |-> "zm", m |-> 2] ELSE R.c
IsPoly(R) == R.k \in {"f2p", "poly"}
F2PolyRing == [k |-> "f2p"]
ZmRing(m) == [k |-> "zm", m |-> m]
PolyRing(c) == [k |-> "poly", c |-> c]

\* uniform access to polynomials of either representation
Deg(R, a) == IF R.k = "f2p" THEN MaxOf(a) ELSE Len(a) - 1      \* -1 for zero
Coef(R, a, i) == IF R.k = "f2p" THEN (IF i \in a THEN 1 ELSE 0)
                 ELSE IF i + 1 <= Len(a) THEN a[i + 1] ELSE Zero(R.c)
FromCoefs(R, s) == IF R.k = "f2p"
                   THEN { i - 1 : i \in { j \in DOMAIN s : s[j] = 1 } }
                   ELSE PNorm(R.c, s)
Coefs(R, a) == [i \in 1..(Deg(R, a) + 1) |-> Coef(R, a, i - 1)]
Lead(R, a) == Coef(R, a, Deg(R, a))
Const(R, c) == FromCoefs(R, <<c>>)
Monomial(R, n) == FromCoefs(R, [i \in 1..(n + 1) |->
                     IF i = n + 1 THEN One(CoefRing(R)) ELSE Zero(CoefRing(R))])

ZeroB(R) == CASE R.k \in {"z", "zm"} -> 0
             [] R.k = "q" -> <<0, 1>>
             [] R.k = "f2p" -> {}
             [] R.k = "poly" -> <<>>
             [] R.k = "quot" -> Zero(R.c)
             [] R.k = "frac" -> <<Zero(R.c), One(R.c)>>

\* the image of an integer
EmbedB(R, n) == CASE R.k = "z" -> n
                 [] R.k = "zm" -> n % R.m
                 [] R.k = "q" -> <<n, 1>>
                 [] R.k = "f2p" -> IF n % 2 = 1 THEN {0} ELSE {}
                 [] R.k = "poly" -> PNorm(R.c, <<Embed(R.c, n)>>)
                 [] R.k = "quot" -> DivMod(R.c, Embed(R.c, n), R.m)[2]
                 [] R.k = "frac" -> <<Embed(R.c, n), One(R.c)>>

Char(R) == CASE R.k \in {"z", "q"} -> 0
             [] R.k = "zm" -> R.m
             [] R.k = "f2p" -> 2
             [] OTHER -> Char(R.c)

EqFracB(R, a, b) == Mul(R.c, a[1], b[2]) = Mul(R.c, b[1], a[2])

AddB(R, a, b) ==
  CASE R.k = "z" -> a + b
    [] R.k = "zm" -> AddMod(a, b, R.m)
    [] R.k = "q" -> QNorm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
    [] R.k = "f2p" -> SDiff(a, b)
    [] R.k = "poly" ->
         LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
         IN PNorm(R.c, [i \in 1..n |-> IF i > Len(a) THEN b[i]
                                       ELSE IF i > Len(b) THEN a[i]
                                       ELSE Add(R.c, a[i], b[i])])
    [] R.k = "quot" -> Add(R.c, a, b)
    [] R.k = "frac" -> <<Add(R.c, Mul(R.c, a[1], b[2]), Mul(R.c, b[1], a[2])),
                         Mul(R.c, a[2], b[2])>>

NegB(R, a) ==
  CASE R.k = "z" -> -a
    [] R.k = "zm" -> (R.m - a) % R.m
    [] R.k = "q" -> <<-a[1], a[2]>>
    [] R.k = "f2p" -> a
    [] R.k = "poly" -> [i \in 1..Len(a) |-> Neg(R.c, a[i])]
    [] R.k = "quot" -> Neg(R.c, a)
    [] R.k = "frac" -> <<Neg(R.c, a[1]), a[2]>>

\* coefficient of x^k in a*b
ConvCoef(C, a, b, k) ==
  LET lo == IF k + 1 > Len(b) THEN k + 1 - Len(b) ELSE 0
      hi == IF k + 1 > Len(a) THEN Len(a) - 1 ELSE k
  IN FoldLeft(LAMBDA acc, i : Add(C, acc, Mul(C, a[i + 1], b[k - i + 1])),
              Zero(C), [i \in 1..(hi - lo + 1) |-> lo + i - 1])

MulB(R, a, b) ==
  CASE R.k = "z" -> a * b
    [] R.k = "zm" -> MulMod(a, b, R.m)
    [] R.k = "q" -> QNorm(a[1] * b[1], a[2] * b[2])
    [] R.k = "f2p" ->
         IF Cardinality(a) <= Cardinality(b)
         THEN FoldSet(LAMBDA e, acc : SDiff(acc, { x + e : x \in b }), {}, a)
         ELSE FoldSet(LAMBDA e, acc : SDiff(acc, { x + e : x \in a }), {}, b)
    [] R.k = "poly" ->
         IF a = <<>> \/ b = <<>> THEN <<>>
         ELSE PNorm(R.c, [k \in 1..(Len(a) + Len(b) - 1) |->
                            ConvCoef(R.c, a, b, k - 1)])
    [] R.k = "quot" -> DivMod(R.c, Mul(R.c, a, b), R.m)[2]
    [] R.k = "frac" -> <<Mul(R.c, a[1], b[1]), Mul(R.c, a[2], b[2])>>

IsUnitB(R, a) ==
  CASE R.k = "z" -> a \in {1, -1}
    [] R.k = "zm" -> IGcd(a, R.m) = 1
    [] R.k = "q" -> a[1] # 0
    [] R.k = "f2p" -> a = {0}
    [] R.k = "poly" -> Len(a) = 1 /\ IsUnit(R.c, a[1])
    [] R.k = "quot" -> Deg(R.c, PGcd(R.c, a, R.m)) = 0
    [] R.k = "frac" -> ~IsZero(R, a)

\* quotient and remainder of polynomials (divisor with invertible leader)
F2DivMod(a, b) ==
  LET db == MaxOf(b)
  IN FoldLeft(LAMBDA acc, s :
        IF (s + db) \in acc[2]
        THEN <<acc[1] \cup {s}, SDiff(acc[2], { x + s : x \in b })>>
        ELSE acc,
      <<{}, a>>, Desc(MaxOf(a) - db, 0))

PDivMod(R, a, b) ==
  LET C == R.c
      nb == Len(b)
      li == Inv(C, b[nb])
      step(acc, s) ==
        LET t == Mul(C, acc[2][s + nb], li)
        IN IF Eq(C, t, Zero(C)) THEN <<<<t>> \o acc[1], acc[2]>>
           ELSE <<<<t>> \o acc[1],
                  [i \in 1..Len(acc[2]) |->
                     IF i > s /\ i <= s + nb
                     THEN Add(C, acc[2][i], Neg(C, Mul(C, t, b[i - s])))
                     ELSE acc[2][i]]>>
      r == FoldLeft(step, <<<<>>, a>>, Desc(Len(a) - nb, 0))
  IN <<PNorm(C, r[1]), PNorm(C, r[2])>>

DivModB(R, a, b) == IF R.k = "f2p" THEN F2DivMod(a, b) ELSE PDivMod(R, a, b)

MonicB(R, a) ==     LET li == Inv(R.c, a[Len(a)])
                    IN [i \in 1..Len(a) |-> Mul(R.c, li, a[i])]

\* the monic greatest common divisor
PGcdB(R, a, b) == IF IsZero(R, b) THEN Monic(R, a)
                 ELSE PGcd(R, b, DivMod(R, a, b)[2])

\* x with x*a = gcd(a,m) modulo m, for the inverse in a residue ring
RECURSIVE PEuInv(_, _, _, _, _)
PEuInv(R, r0, r1, s0, s1) ==
  IF IsZero(R, r1) THEN <<r0, s0>>
  ELSE LET qr == DivMod(R, r0, r1)
       IN PEuInv(R, r1, qr[2], s1, Add(R, s0, Neg(R, Mul(R, qr[1], s1))))

InvB(R, a) ==
  CASE R.k = "z" -> a
    [] R.k = "zm" -> InvMod(a, R.m)
    [] R.k = "q" -> QNorm(a[2], a[1])
    [] R.k = "f2p" -> a
    [] R.k = "poly" -> <<Inv(R.c, a[1])>>
    [] R.k = "quot" ->
         LET e == PEuInv(R.c, a, R.m, One(R.c), Zero(R.c))
             g == Inv(CoefRing(R.c), Lead(R.c, e[1]))
         IN DivMod(R.c, Mul(R.c, Const(R.c, g), e[2]), R.m)[2]
    [] R.k = "frac" -> <<a[2], a[1]>>

RECURSIVE Pow(_, _, _)
Pow(R, a, n) == IF n = 0 THEN One(R)
                ELSE LET h == Pow(R, a, n \div 2)
                         t == Mul(R, h, h)
                     IN IF n % 2 = 1 THEN Mul(R, t, a) ELSE t

\* canonical-value predicate: the only values the library may ever hold
WFB(R, a) ==
  CASE R.k = "z" -> TRUE
    [] R.k = "zm" -> a >= 0 /\ a < R.m
    [] R.k = "q" -> a[2] > 0 /\ IGcd(a[1], a[2]) = 1
    [] R.k = "f2p" -> \A e \in a : e >= 0
    [] R.k = "poly" -> /\ \A i \in DOMAIN a : WF(R.c, a[i])
                       /\ (a # <<>> => ~Eq(R.c, a[Len(a)], Zero(R.c)))
    [] R.k = "quot" -> WF(R.c, a) /\ Deg(R.c, a) < Deg(R.c, R.m)
    [] R.k = "frac" -> /\ WF(R.c, a[1]) /\ WF(R.c, a[2])
                       /\ ~IsZero(R.c, a[2])
                       /\ Deg(R.c, PGcd(R.c, a[1], a[2])) = 0

\* the library's total order on elements: numeric, then degree-lexical
LessB(R, a, b) ==
  CASE R.k \in {"z", "zm"} -> a < b
    [] R.k = "q" -> a[1] * b[2] < b[1] * a[2]
    [] R.k = "f2p" -> a # b /\ MaxOf(SDiff(a, b)) \in b
    [] R.k = "poly" ->
         IF Len(a) <= 1 /\ Len(b) <= 1 THEN Less(R.c, Coef(R, a, 0), Coef(R, b, 0))
         ELSE IF Len(a) # Len(b) THEN Len(a) < Len(b)
         ELSE \E i \in 1..Len(a) :
                /\ Less(R.c, a[i], b[i])
                /\ \A j \in (i + 1)..Len(a) : a[j] = b[j]
    [] R.k = "quot" -> Less(R.c, a, b)
    [] R.k = "frac" ->     \* of the forms in lowest terms (monic denominators over F2)
         LET low(f) == LET g == PGcd(R.c, f[1], f[2])
                       IN <<DivMod(R.c, f[1], g)[1], DivMod(R.c, f[2], g)[1]>>
             p == low(a)
             q == low(b)
         IN Less(R.c, Mul(R.c, p[1], q[2]), Mul(R.c, q[1], p[2]))

Rg(o, R, a, b) ==
  CASE o = "mul" -> MulB(R, a, b)
    [] o = "add" -> AddB(R, a, b)
    [] o = "divmod" -> DivModB(R, a, b)
    [] o = "zero" -> ZeroB(R)
    [] o = "neg" -> NegB(R, a)
    [] o = "embed" -> EmbedB(R, a)
    [] o = "inv" -> InvB(R, a)
    [] o = "isunit" -> IsUnitB(R, a)
    [] o = "eqfrac" -> EqFracB(R, a, b)
    [] o = "less" -> LessB(R, a, b)
    [] o = "pgcd" -> PGcdB(R, a, b)
    [] o = "monic" -> MonicB(R, a)
    [] o = "wf" -> WFB(R, a)

\* ---- polynomial operations ---------------------------------------------
Eval(R, a, c) == LET C == CoefRing(R)
                 IN FoldLeft(LAMBDA acc, i : Add(C, Mul(C, acc, c), Coef(R, a, i)),
                             Zero(C), Desc(Deg(R, a), 0))
Deriv(R, a) ==
  LET C == CoefRing(R)
  IN FromCoefs(R, [i \in 1..(IF Deg(R, a) > 0 THEN Deg(R, a) ELSE 0) |->
                     Mul(C, Embed(C, i), Coef(R, a, i))])
ScalarMul(R, c, a) == FromCoefs(R, [i \in 1..(Deg(R, a) + 1) |->
                          Mul(CoefRing(R), c, Coef(R, a, i - 1))])
SetCoef(R, a, n, c) ==
  FromCoefs(R, [i \in 1..((IF n > Deg(R, a) THEN n ELSE Deg(R, a)) + 1) |->
                  IF i = n + 1 THEN c ELSE Coef(R, a, i - 1)])

\* all elements of a finite ring; size of a finite ring
RECURSIVE RingSize(_)
RingSize(R) == CASE R.k = "zm" -> R.m
                 [] R.k = "quot" -> RingSize(CoefRing(R.c)) ^ Deg(R.c, R.m)
RECURSIVE Elements(_), PolysBelow(_, _)
PolysBelow(R, n) ==                     \* all polynomials of degree < n
  IF R.k = "f2p" THEN SUBSET (0..(n - 1))
  ELSE { PNorm(R.c, s) : s \in [1..n -> Elements(R.c)] }
Elements(R) == CASE R.k = "zm" -> 0..(R.m - 1)
                 [] R.k = "quot" -> PolysBelow(R.c, Deg(R.c, R.m))

\* a mod-p-th-power test: r with r^p = a, p the characteristic
HasPthRoot(R, a) == LET p == Char(R)
                    IN \A i \in 0..Deg(R, a) :
                         (i % p # 0) => Eq(CoefRing(R), Coef(R, a, i), Zero(CoefRing(R)))

Divides(R, b, a) == IF IsZero(R, b) THEN IsZero(R, a) ELSE IsZero(R, DivMod(R, a, b)[2])

\* associates: equal up to a unit factor
Assoc(R, a, b) == Monic(R, a) = Monic(R, b)

\* ---- decoding of JSON values -------------------------------------------
RECURSIVE Dec(_, _), RingOf(_)
Dec(R, j) == CASE R.k \in {"z", "zm"} -> j
               [] R.k = "q" -> j
               [] R.k = "f2p" -> Range0(j)
               [] R.k = "poly" -> [i \in DOMAIN j |-> Dec(R.c, j[i])]
               [] R.k = "quot" -> Dec(R.c, j)
               [] R.k = "frac" -> <<Dec(R.c, j[1]), Dec(R.c, j[2])>>
RingOf(j) == CASE j.k \in {"z", "q", "f2p"} -> [k |-> j.k]
               [] j.k = "zm" -> [k |-> "zm", m |-> j.m]
               [] j.k \in {"poly", "frac"} -> [k |-> j.k, c |-> RingOf(j.c)]
               [] j.k = "quot" -> LET c == RingOf(j.c)
                                  IN [k |-> "quot", c |-> c, m |-> Dec(c, j.m)]
=============================================================================
