------------------------------- MODULE LpMath -------------------------------
(***************************************************************************)
(* Minimal and characteristic polynomials of matrices and of field         *)
(* elements, companion matrices, isomorphisms between representations of   *)
(* F_2^n, vectors from base representations, and diagonalizability (C15).  *)
(* R is a ring of polynomials over the finite field C = CoefRing(R).       *)
(***************************************************************************)
EXTENDS FinMath, LinAlg

CharMat(R, A) == LET x == X(R) z == Zero(R)
                 IN MkMat(NR(A), NR(A), LAMBDA i, j : Sub(R, IF i = j THEN x ELSE z, Const(R, A[i][j])))
CharPoly(R, A) == CofDet(R, CharMat(R, A))

\* a polynomial f over C evaluated at an element of K, a C-algebra of polynomials
EvalIn(R, K, f, a) == FoldLeft(LAMBDA acc, i : Add(K, Mul(K, acc, a), Const(R, Coef(R, f, i))), Zero(K), Desc(Deg(R, f), 0))
EvalMat(R, f, A) == LET C == CoefRing(R) n == NR(A)
                    IN FoldLeft(LAMBDA acc, i : MAddDiag(C, MMul(C, acc, A), Coef(R, f, i)), MZero(C, n, n), Desc(Deg(R, f), 0))
Coords(R, n, a) == [i \in 1..n |-> Coef(R, a, i - 1)]
PowersUpTo(K, a, d) == FoldLeft(LAMBDA acc, i : Append(acc, Mul(K, acc[Len(acc)], a)), <<One(K)>>, [i \in 1..(d - 1) |-> i])

\* ---- elements of the field R/m --------------------------------------------
MinPolyIs(R, m, a, f) ==
  LET K == Residues(R, m) n == Deg(R, m) d == Deg(R, f)
  IN /\ MonicP(R, f) /\ d >= 1 /\ d <= n
     /\ IsZero(K, EvalIn(R, K, f, a))
     /\ Rank(CoefRing(R), LET ps == TLCEval(PowersUpTo(K, a, d)) IN [i \in 1..d |-> Coords(R, n, ps[i])]) = d
MulMatrix(R, m, a) == LET K == Residues(R, m) n == Deg(R, m)
                      IN [i \in 1..n |-> Coords(R, n, Mul(K, a, Monomial(R, i - 1)))]
RECURSIVE FrobLen0(_, _, _, _)
FrobLen0(R, m, a, b) == LET c == Frob(R, m, b) IN IF c = a THEN 1 ELSE 1 + FrobLen0(R, m, a, c)
FrobLen(R, m, a) == FrobLen0(R, m, a, a)
\* the same polynomial with its coefficients read in the bigger field
Lifted(R, m, f) == LET L == PolyRing(Residues(R, m)) IN FromCoefs(L, [i \in 1..(Deg(R, f) + 1) |-> Const(R, Coef(R, f, i - 1))])

Flat(A) == FoldLeft(LAMBDA acc, row : acc \o row, <<>>, A)
\* char poly f, and I, B, ..., B^(n-1) independent: B is similar to "the" companion matrix
CompanionOk(R, f, B) ==
  LET C == CoefRing(R) n == Deg(R, f)
      ps == TLCEval(FoldLeft(LAMBDA acc, i : Append(acc, TLCEval(MMul(C, acc[i], B))), <<Ident(C, n)>>, [i \in 1..(n - 1) |-> i]))
  IN /\ NR(B) = n /\ \A i \in 1..n : Len(B[i]) = n /\ \A j \in 1..n : WF(C, B[i][j])
     /\ CharPoly(R, B) = f
     /\ Rank(C, [i \in 1..n |-> Flat(ps[i])]) = n

\* the digits of k in base q, most significant first
RECURSIVE BaseDigits(_, _, _, _)
BaseDigits(C, k, q, n) == IF n = 0 THEN <<>> ELSE Append(BaseDigits(C, k \div q, q, n - 1), KthEl(C, k % q))

Radical(R, s) == FoldSet(LAMBDA f, acc : Mul(R, acc, f), One(R), Range0(s))
Diagonalizable(R, rad, A) == IsZeroMat(CoefRing(R), EvalMat(R, rad, A))
DegLcm(R, s) == FoldSet(LAMBDA f, acc : LET d == Deg(R, f) IN (acc * d) \div IGcd(acc, d), 1, Range0(s))

F2 == F2PolyRing
\* the map of F_2[x]/m1 into K2 sending x to t
MapAt(K2, t, a) == EvalIn(F2, K2, a, t)

DMat(C, j) == [i \in DOMAIN j |-> [k \in DOMAIN j[i] |-> Dec(C, j[i][k])]]

LpPermit(R, e) ==
  LET C == CoefRing(R)
  IN CASE e.op = "mchar" ->
            IF e.A = <<>> \/ Len(e.A) # Len(e.A[1]) THEN e.x = 1
            ELSE e.x = 0 /\ Dec(R, e.r) = CharPoly(R, DMat(C, e.A))
       [] e.op = "comp" -> e.x = 0 /\ CompanionOk(R, Dec(R, e.f), DMat(C, e.r))
       [] e.op = "el" ->
            LET m == Dec(R, e.m) a == Dec(R, e.a)
            IN e.x = 0 /\ LET f == Dec(R, e.min) d == Deg(R, f)
                          IN /\ MinPolyIs(R, m, a, f)
                             /\ e.len = FrobLen(R, m, a)
                             /\ Dec(R, e.char) = Pow(R, f, Deg(R, m) \div d)
                             /\ (R.k = "f2p" => LET L == PolyRing(Residues(R, m))
                                                IN /\ Dec(L, e.smin) = Lifted(R, m, f)
                                                   /\ Dec(L, e.schar) = Lifted(R, m, Dec(R, e.char)))
       [] e.op = "conv" ->
            LET m1 == Dec(F2, e.m) m2 == Dec(F2, e.m2) K1 == Residues(F2, m1) K2 == Residues(F2, m2)
            IN e.x = 0 /\ (e.got = 1 <=> Deg(F2, m2) % Deg(F2, m1) = 0)
               /\ (e.got = 1 =>
                    LET t == Dec(K2, e.t)                      \* the image of x
                    IN /\ WF(K2, t) /\ MapAt(K2, t, m1) = Zero(K2)
                       /\ Dec(K2, e.g2) = MapAt(K2, t, Dec(K1, e.g))
                       /\ \A i \in DOMAIN e.as : Dec(K2, e.img[i]) = MapAt(K2, t, Dec(K1, e.as[i]))
                       /\ LET p == Dec(PolyRing(K1), e.p)
                          IN Dec(PolyRing(K2), e.pimg) = FromCoefs(PolyRing(K2), [i \in 1..Len(p) |-> MapAt(K2, t, p[i])])
                       /\ LET A == DMat(K1, e.A)
                          IN DMat(K2, e.Aimg) = [i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> MapAt(K2, t, A[i][j])]])
       [] e.op = "vec" -> e.x = 0 /\ [i \in DOMAIN e.r |-> Dec(C, e.r[i])] = BaseDigits(C, e.n, Q(R), e.len)
       [] e.op = "matrep" -> e.x = 0 /\ LET A == DMat(C, e.r) IN Len(A) = e.rows /\ (\A i \in DOMAIN A : Len(A[i]) = e.cols)
                                        /\ Flat(A) = BaseDigits(C, e.n, Q(R), e.rows * e.cols)
       [] e.op = "diag" ->                                     \* C is F_2[x]/m
            LET A == DMat(C, e.A) fs == TLCEval(SpecFactors(R, CharPoly(R, A))) rad == TLCEval(Radical(R, fs))
                m == C.m ext == Dec(F2, e.ext) L == DegLcm(R, fs)
                K2 == Residues(F2, ext) P2 == PolyRing(K2)
                ev == [i \in DOMAIN e.ev |-> Dec(K2, e.ev[i])]
                prod == TLCEval(FoldLeft(LAMBDA acc, v : Mul(P2, acc, FromCoefs(P2, <<Neg(K2, v), One(K2)>>)), One(P2), ev))
            IN /\ e.x = 0
               /\ (e.got = 1 <=> Diagonalizable(R, rad, A))
               /\ Deg(F2, ext) = L * Deg(F2, m) /\ (IF L = 1 THEN ext = m ELSE Irred(F2, ext))
               /\ Cardinality(Range0(ev)) = Len(ev)
               /\ \E t \in (IF L = 1 THEN { X(F2) } ELSE { b \in Elements(K2) : MapAt(K2, b, m) = Zero(K2) }) :
                    prod = FromCoefs(P2, [i \in 1..(Deg(R, rad) + 1) |-> PRem(F2, MapAt(K2, t, Coef(R, rad, i - 1)), ext)])
=============================================================================
