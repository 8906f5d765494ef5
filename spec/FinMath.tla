------------------------------ MODULE FinMath ------------------------------
(***************************************************************************)
(* Factorization, irreducibility, totients, divisors, orders, generators,  *)
(* logarithms and lists, over the integers (ring "z") and the polynomial   *)
(* rings F2[x], Fp[x], F_{2^n}[x].  FinPermit(R, e) says which outcomes of    *)
(* the call e are right.  Nothing here follows the library's algorithms    *)
(* (Berlekamp, baby-step giant-step, Lagrange scans).                      *)
(***************************************************************************)
EXTENDS IntMath

Q(R) == RingSize(CoefRing(R))
Zp == [k |-> "z"]
Residues(R, m) == IF R.k = "z" THEN ZmRing(m) ELSE [k |-> "quot", c |-> R, m |-> m]
X(R) == Monomial(R, 1)
PRem(R, a, m) == DivMod(R, a, m)[2]
\* h^q mod f
Frob(R, f, h) == IF R.k = "f2p" THEN PRem(R, { 2 * e : e \in h }, f) ELSE Pow(Residues(R, f), h, Q(R))

\* Rabin's criterion (FinGen checks it against the definition)
Irred(R, f) ==
  LET n == Deg(R, f)
  IN IF n < 1 THEN FALSE ELSE IF n = 1 THEN TRUE
     ELSE LET x == X(R)
              xs == FoldLeft(LAMBDA acc, i : Append(acc, Frob(R, f, acc[i])), <<x>>, [i \in 1..n |-> i])
          IN /\ xs[n + 1] = x
             /\ \A p \in PrimeDivs(n) : Deg(R, PGcd(R, f, Sub(R, xs[(n \div p) + 1], x))) = 0

\* the k-th element of a finite field in the library's order, the k-th polynomial
Digit(k, q, i) == (k \div (q ^ i)) % q
RECURSIVE KthEl(_, _), NDigits(_, _)
NDigits(k, q) == IF k = 0 THEN 0 ELSE 1 + NDigits(k \div q, q)
BitsOf(k) == { i \in 0..30 : (k \div (2 ^ i)) % 2 = 1 }
KthEl(C, k) == IF C.k = "zm" THEN k ELSE BitsOf(k)            \* F_p, or F_2^n as F2[x]/m
KthPoly(R, k) == IF R.k = "f2p" THEN BitsOf(k)
                 ELSE [i \in 1..NDigits(k, Q(R)) |-> KthEl(R.c, Digit(k, Q(R), i - 1))]
ElIndex(C, v) == IF C.k = "zm" THEN v ELSE FoldSet(LAMBDA i, acc : acc + 2 ^ i, 0, v)
PolyIndex(R, a) == FoldLeft(LAMBDA acc, i : acc * Q(R) + ElIndex(CoefRing(R), Coef(R, a, i)), 0, Desc(Deg(R, a), 0))
MonicNth(R, n, k) == Add(R, Monomial(R, n), KthPoly(R, k))
HasConst(R, f) == Coef(R, f, 0) # Zero(CoefRing(R))
MonicP(R, f) == ~IsZero(R, f) /\ Lead(R, f) = One(CoefRing(R))

\* r is the first polynomial x^n + ... satisfying P, among those with a nonzero constant term
FirstMonic(R, n, r, P(_)) ==
  /\ Deg(R, r) = n /\ MonicP(R, r) /\ HasConst(R, r) /\ P(r)
  /\ LET low == Sub(R, r, Monomial(R, n))
     IN /\ Q(R) ^ (IF Deg(R, low) > 14 THEN 15 ELSE Deg(R, low) + 1) <= 100000
        /\ \A k \in 1..(PolyIndex(R, low) - 1) :
             LET f == MonicNth(R, n, k) IN HasConst(R, f) => ~P(f)

\* ---- factorization in the specification itself (small inputs) ------------
\* the least monic nonconstant divisor, by trial; f monic of degree >= 1
LeastPolyDivisor(R, f) ==
  LET n == Deg(R, f)
      hits(d) == { k \in 0..(Q(R) ^ d - 1) : Divides(R, MonicNth(R, d, k), f) }
      ds == { d \in 1..(n \div 2) : hits(d) # {} }
  IN IF ds = {} THEN f
     ELSE LET d == MinOf(ds) IN MonicNth(R, d, MinOf(hits(d)))
RECURSIVE SpecFactors(_, _)
SpecFactors(R, f) ==     \* the sequence of irreducible factors, with repetition
  IF Deg(R, f) < 1 THEN <<>>
  ELSE LET p == LeastPolyDivisor(R, f) IN <<p>> \o SpecFactors(R, DivMod(R, f, p)[1])
Bagged(s) == [v \in Range0(s) |-> Cardinality({ i \in DOMAIN s : s[i] = v })]
SpecBag(R, f) == Bagged(SpecFactors(R, Monic(R, f)))
RECURSIVE ZFactors(_)
ZFactors(n) == IF n <= 1 THEN <<>> ELSE LET p == LeastDivisor(n) IN <<p>> \o ZFactors(n \div p)

\* ---- bags of factors: functions from factors to positive counts ----------
RIrred(R, f) == IF R.k = "z" THEN IsPrime(f) ELSE MonicP(R, f) /\ Irred(R, f)
RMul(R, a, b) == IF R.k = "z" THEN a * b ELSE Mul(R, a, b)
RPow(R, a, n) == IF R.k = "z" THEN IPow(a, n) ELSE Pow(R, a, n)
Unfactor(R, u, B) == FoldSet(LAMBDA f, acc : RMul(R, acc, RPow(R, f, B[f])), u, DOMAIN B)
\* a bag handed over by the harness as a certificate, verified here
CertOk(R, a, fs) == LET B == [f \in { fs[i][1] : i \in DOMAIN fs } |-> (CHOOSE p \in Range0(fs) : p[1] = f)[2]]
                    IN /\ \A f \in DOMAIN B : RIrred(R, f) /\ B[f] >= 1
                       /\ Cardinality(DOMAIN B) = Len(fs)
                       /\ Unfactor(R, IF R.k = "z" THEN 1 ELSE One(R), B) = (IF R.k = "z" THEN Abs(a) ELSE Monic(R, a))
Bag(R, e, a) ==
  IF R.k = "z" THEN Bagged(ZFactors(Abs(a)))
  ELSE IF e.fs = <<>> THEN SpecBag(R, a)
  ELSE LET fs == [i \in DOMAIN e.fs |-> <<Dec(R, e.fs[i][1]), e.fs[i][2]>>]
       IN IF Assert(CertOk(R, a, fs), "driver: bad certificate")
          THEN [f \in { fs[i][1] : i \in DOMAIN fs } |-> (CHOOSE p \in Range0(fs) : p[1] = f)[2]] ELSE 0
PolyTotient(R, B) == FoldSet(LAMBDA f, acc : LET d == Deg(R, f) IN acc * (Q(R) ^ (d * (B[f] - 1))) * (Q(R) ^ d - 1), 1, DOMAIN B)
Phi(R, e, m) == IF R.k = "z" THEN (IF m = 1 THEN 1 ELSE Totient(m)) ELSE PolyTotient(R, Bag(R, e, m))
NumDivisors(B) == FoldSet(LAMBDA f, acc : acc * (B[f] + 1), 1, DOMAIN B)

RLess(R, a, b) == IF R.k = "z" THEN a < b ELSE Less(R, a, b)
Ascending(R, s) == \A i \in 1..(Len(s) - 1) : RLess(R, s[i], s[i + 1])
RDivides(R, d, a) == IF R.k = "z" THEN d # 0 /\ a % Abs(d) = 0 ELSE Divides(R, d, a)

\* ---- unit groups ---------------------------------------------------------
UnitIn(R, m, a) == IF R.k = "z" THEN IGcd(a, m) = 1 ELSE Deg(R, PGcd(R, a, m)) = 0
RedIn(R, a, m) == IF R.k = "z" THEN a % m ELSE PRem(R, a, m)
OneIn(R, m) == IF R.k = "z" THEN 1 % m ELSE PRem(R, One(R), m)
\* r is the least positive exponent with a^r = 1
IsOrder(R, m, a, r) ==
  LET K == Residues(R, m)
  IN /\ r >= 1 /\ Pow(K, a, r) = OneIn(R, m)
     /\ \A p \in PrimeDivs(r) : Pow(K, a, r \div p) # OneIn(R, m)
HasFullOrder(R, m, a, phi) == UnitIn(R, m, a) /\ \A p \in PrimeDivs(phi) : Pow(Residues(R, m), a, phi \div p) # OneIn(R, m)
RECURSIVE PowersOf(_, _, _, _)
PowersOf(K, g, x, acc) == IF x \in acc THEN acc ELSE PowersOf(K, g, Mul(K, x, g), acc \cup {x})
Generated(R, m, g) == PowersOf(Residues(R, m), g, OneIn(R, m), {})
AllResidues(R, m) == IF R.k = "z" THEN 0..(m - 1) ELSE Elements(Residues(R, m))
Prim(R, m, phi) == HasFullOrder(R, m, RedIn(R, X(R), m), phi)
NoFs == [fs |-> <<>>]
PrimIrr(R, irr, f) == IF irr = 1 THEN Irred(R, f) /\ Prim(R, f, Q(R) ^ Deg(R, f) - 1)
                      ELSE Prim(R, f, Phi(R, NoFs, f))

\* s lists the set S, each once, in ascending order
Lists(R, s, S) == Ascending(R, s) /\ Range0(s) = S /\ Len(s) = Cardinality(S)
LexLess(R, s, t) == \E i \in DOMAIN s : RLess(R, s[i], t[i]) /\ \A j \in 1..(i - 1) : s[j] = t[j]
Tuples(S, n) == [1..n -> S]
LastNZ(R, t) == MaxOf({ i \in DOMAIN t : t[i] # Zero(R) } \cup {0})

FinPermit(R, e) ==
  LET D(v) == IF R.k = "z" THEN v ELSE Dec(R, v)
      DS(v) == [i \in DOMAIN v |-> D(v[i])]
      Val(v) == e.x = 0 /\ e.r = v
      Ok == e.x = 0
  IN
  CASE e.op = "factor" ->
         LET a == D(e.a)
             B == [i \in DOMAIN e.r.fs |-> <<D(e.r.fs[i][1]), e.r.fs[i][2]>>]
             u == IF e.r.hu = 1 THEN D(e.r.u) ELSE IF R.k = "z" THEN 1 ELSE One(R)
         IN /\ Ok
            /\ Ascending(R, [i \in DOMAIN B |-> B[i][1]])
            /\ \A i \in DOMAIN B : B[i][2] >= 1 /\ RIrred(R, B[i][1])
            /\ (IF R.k = "z" THEN u \in {0, 1, -1} ELSE Deg(R, u) <= 0)
            /\ FoldLeft(LAMBDA acc, p : RMul(R, acc, RPow(R, p[1], p[2])), u, B) = a
    [] e.op = "irred" -> Val(IF Irred(R, D(e.a)) THEN 1 ELSE 0)
    [] e.op = "findirr" -> IF e.n < 1 THEN e.x = 1
                           ELSE Ok /\ FirstMonic(R, e.n, D(e.r), LAMBDA f : Irred(R, f))
    [] e.op = "randirr" -> IF e.n < 1 THEN e.x = 1
                           ELSE Ok /\ LET f == D(e.r) IN Deg(R, f) = e.n /\ MonicP(R, f) /\ Irred(R, f)
    [] e.op = "roots" ->
         LET a == D(e.a)
             S == { c \in Elements(R.c) : IsZero(R.c, Eval(R, a, c)) }
             rs == [i \in DOMAIN e.r |-> Dec(R.c, e.r[i])]
         IN Ok /\ e.got = (IF S = {} THEN 0 ELSE 1) /\ Range0(rs) = S /\ Len(rs) = Cardinality(S)
    [] e.op = "totient" -> Val(Phi(R, e, D(e.a)))
    [] e.op = "ndivs" -> Val(NumDivisors(Bag(R, e, D(e.a))))
    [] e.op = "divs" ->
         LET a == D(e.a)
             B == Bag(R, e, a)
             s == DS(e.r)
         IN Ok /\ Ascending(R, s) /\ Len(s) = NumDivisors(B)
            /\ \A i \in DOMAIN s : RDivides(R, s[i], a) /\ (IF R.k = "z" THEN s[i] > 0 ELSE MonicP(R, s[i]))
    [] e.op = "mpds" ->
         LET a == D(e.a)
             B == Bag(R, e, a)
             s == DS(e.r)
         IN Ok /\ Len(s) = Cardinality(DOMAIN B) /\ e.got = (IF DOMAIN B = {} THEN 0 ELSE 1)
            /\ Ascending(R, s)
            /\ Range0(s) = { IF R.k = "z" THEN (IF a < 0 THEN -(Abs(a) \div f) ELSE a \div f) ELSE DivMod(R, a, f)[1] : f \in DOMAIN B }
    [] e.op = "order" ->
         LET m == D(e.m)
             a == RedIn(R, D(e.a), m)
         IN IF UnitIn(R, m, a) THEN Ok /\ IsOrder(R, m, a, e.r) ELSE e.x = 1
    [] e.op = "gen" ->
         LET m == D(e.m)
             phi == Phi(R, e, m)
         IN Ok /\ IF e.got = 1 THEN LET g == D(e.r) IN RedIn(R, g, m) = g /\ HasFullOrder(R, m, g, phi)
                  ELSE ~RIrred(R, IF R.k = "z" THEN m ELSE Monic(R, m)) /\ \A a \in AllResidues(R, m) : ~HasFullOrder(R, m, a, phi)
    [] e.op = "log" ->
         LET m == D(e.m)
             g == RedIn(R, D(e.g), m)
             a == RedIn(R, D(e.a), m)
         IN IF e.x = 1 THEN ~UnitIn(R, m, g) \/ a \notin Generated(R, m, g)
            ELSE UnitIn(R, m, g) /\ e.r >= 0 /\ Pow(Residues(R, m), g, e.r) = a
    [] e.op = "period" ->
         LET m == D(e.m)
         IN IF UnitIn(R, m, X(R)) THEN Ok /\ IsOrder(R, m, RedIn(R, X(R), m), e.r) ELSE Val(0)
    [] e.op = "prim" -> Val(IF Prim(R, D(e.m), Phi(R, e, D(e.m))) THEN 1 ELSE 0)
    [] e.op = "findprim" -> IF e.n < 1 THEN e.x = 1
                            ELSE Ok /\ FirstMonic(R, e.n, D(e.r), LAMBDA f : PrimIrr(R, e.irr, f))
    [] e.op = "randprim" -> IF e.n < 1 THEN e.x = 1
                            ELSE Ok /\ LET f == D(e.r) IN Deg(R, f) = e.n /\ PrimIrr(R, e.irr, f)
    [] e.op = "plist" -> Ok /\ Lists(R, DS(e.r), { f \in PolysBelow(R, e.n + 1) : Deg(R, f) = e.n /\ ~IsZero(R, f) })
    [] e.op = "mlist" ->
         LET m == D(e.m)
             A == AllResidues(R, m)
         IN Ok /\ Lists(R, DS(e.r), CASE e.t = "all" -> A
                                      [] e.t = "units" -> { a \in A : UnitIn(R, m, a) }
                                      [] e.t = "nonunits" -> { a \in A : ~UnitIn(R, m, a) })
    [] e.op = "glist" ->
         LET m == D(e.m)
             A == AllResidues(R, m)
             K == Residues(R, m)
             g == RedIn(R, D(e.a), m)
             h == IF R.k = "z" THEN IGcd(g, m) ELSE PGcd(R, g, m)
         IN Ok /\ Lists(R, DS(e.r), CASE e.t = "multiples" -> { Mul(K, a, g) : a \in A }
                                      [] e.t = "relprime" -> { a \in A : UnitIn(R, h, a) })
    [] e.op = "An" ->
         LET T == Tuples(AllResidues(R, D(e.m)), e.n)
             s == [i \in DOMAIN e.r |-> DS(e.r[i])]
         IN Ok /\ Range0(s) = T /\ Len(s) = Cardinality(T) /\ \A i \in 1..(Len(s) - 1) : LexLess(R, s[i], s[i + 1])
    [] e.op = "Pn" ->
         LET m == D(e.m)
             T == { t \in Tuples(AllResidues(R, m), e.n + 1) : LET k == LastNZ(R, t) IN k > 0 /\ t[k] = OneIn(R, m) }
             s == [i \in DOMAIN e.r |-> DS(e.r[i])]
         IN Ok /\ Range0(s) = T /\ Len(s) = Cardinality(T)
    [] OTHER -> FALSE
=============================================================================
