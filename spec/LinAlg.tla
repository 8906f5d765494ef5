------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Vectors and matrices over a ring of the tower of Algebra.tla.           *)
(* A vector is a sequence of elements, a matrix a sequence of rows of the  *)
(* same length; <<>> is the object that holds nothing yet.                 *)
(***************************************************************************)
EXTENDS Algebra

NR(A) == Len(A)
NC(A) == IF A = <<>> THEN 0 ELSE Len(A[1])
Square(A) == NR(A) = NC(A)
SameDims(A, B) == NR(A) = NR(B) /\ NC(A) = NC(B)

VAdd(R, u, v) == [i \in 1..Len(u) |-> Add(R, u[i], v[i])]
VSub(R, u, v) == [i \in 1..Len(u) |-> Sub(R, u[i], v[i])]
VMul(R, u, v) == [i \in 1..Len(u) |-> Mul(R, u[i], v[i])]
VNeg(R, u) == [i \in 1..Len(u) |-> Neg(R, u[i])]
VScal(R, c, u) == [i \in 1..Len(u) |-> Mul(R, u[i], c)]
VZero(R, n) == [i \in 1..n |-> Zero(R)]
Dot(R, u, v) == FoldLeft(LAMBDA acc, i : Add(R, acc, Mul(R, u[i], v[i])), Zero(R), [i \in 1..Len(u) |-> i])
\* position (from 0) of the first nonzero element, or -1
LeaderPos(R, u) == LET S == { i \in DOMAIN u : ~IsZero(R, u[i]) }
                   IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
SortedBy(R, u) == \A i \in 1..(Len(u) - 1) : ~Less(R, u[i + 1], u[i])
SameBag(u, v) == Len(u) = Len(v) /\ \A x \in Range0(u) \cup Range0(v) :
                   Cardinality({ i \in DOMAIN u : u[i] = x }) = Cardinality({ i \in DOMAIN v : v[i] = x })

MkMat(m, n, f(_, _)) == [i \in 1..m |-> [j \in 1..n |-> f(i, j)]]
MAdd(R, A, B) == [i \in 1..NR(A) |-> VAdd(R, A[i], B[i])]
MSub(R, A, B) == [i \in 1..NR(A) |-> VSub(R, A[i], B[i])]
MNeg(R, A) == [i \in 1..NR(A) |-> VNeg(R, A[i])]
MScal(R, c, A) == [i \in 1..NR(A) |-> VScal(R, c, A[i])]
Ident(R, n) == LET z == Zero(R) o == One(R) IN MkMat(n, n, LAMBDA i, j : IF i = j THEN o ELSE z)
MZero(R, m, n) == LET z == Zero(R) IN MkMat(m, n, LAMBDA i, j : z)
MAddDiag(R, A, c) == MkMat(NR(A), NC(A), LAMBDA i, j : IF i = j THEN Add(R, A[i][j], c) ELSE A[i][j])
Transp(A) == MkMat(NC(A), NR(A), LAMBDA i, j : A[j][i])
Col(A, j) == [i \in 1..NR(A) |-> A[i][j]]
MMulG(R, A, B) == LET T == TLCEval(Transp(B)) IN TLCEval(MkMat(NR(A), NC(B), LAMBDA i, j : Dot(R, A[i], T[j])))
\* over the bits a row is the set of its ones (the same values, evaluated faster)
Bits2(R) == R.k = "zm" /\ R.m = 2
Ones(row) == { j \in DOMAIN row : row[j] = 1 }
OnesRows(A) == TLCEval([i \in DOMAIN A |-> Ones(A[i])])
BitRow(S, n) == [j \in 1..n |-> IF j \in S THEN 1 ELSE 0]
SymD(S, T) == (S \ T) \cup (T \ S)
MMul2(A, B) == LET a == OnesRows(A)
                   b == OnesRows(Transp(B))
               IN TLCEval(MkMat(NR(A), NC(B), LAMBDA i, j : Cardinality(a[i] \cap b[j]) % 2))
MMul(R, A, B) == IF Bits2(R) /\ NC(A) > 8 THEN MMul2(A, B) ELSE MMulG(R, A, B)
MVec(R, A, v) == [i \in 1..NR(A) |-> Dot(R, A[i], v)]
VMat(R, v, A) == [j \in 1..NC(A) |-> Dot(R, v, Col(A, j))]
Outer(R, u, v) == MkMat(Len(u), Len(v), LAMBDA i, j : Mul(R, u[i], v[j]))
Paste(A, B) == [i \in 1..NR(A) |-> A[i] \o B[i]]
ColSlice(A, lo, hi) == [i \in 1..NR(A) |-> SubSeq(A[i], lo, hi)]
RowSwap(A, i, j) == [A EXCEPT ![i] = A[j], ![j] = A[i]]
IsZeroMat(R, A) == \A i \in DOMAIN A : \A j \in DOMAIN A[i] : IsZero(R, A[i][j])
RECURSIVE MPow(_, _, _)
MPow(R, A, n) == IF n = 0 THEN Ident(R, NR(A))
                 ELSE LET h == TLCEval(MPow(R, A, n \div 2))
                          t == MMul(R, h, h)
                      IN IF n % 2 = 1 THEN MMul(R, t, A) ELSE t

\* ---- the determinant, by cofactors (any commutative ring) ----------------
RECURSIVE CofDet(_, _)
CofDet(R, A) ==
  IF A = <<>> THEN One(R)
  ELSE FoldLeft(LAMBDA acc, j :
         IF IsZero(R, A[1][j]) THEN acc
         ELSE LET minor == [i \in 1..(NR(A) - 1) |-> RemoveAt(A[i + 1], j)]
                  t == Mul(R, A[1][j], CofDet(R, minor))
              IN IF j % 2 = 1 THEN Add(R, acc, t) ELSE Sub(R, acc, t),
         Zero(R), [j \in 1..NR(A) |-> j])

\* ---- reduced row echelon form over a field (it is unique) -----------------
\* acc = <<rows, pivots found, determinant of the operations undone>>
RrefStep(R, acc, c) ==
  LET A == acc[1]
      r == acc[2]
      P == { i \in (r + 1)..NR(A) : ~IsZero(R, A[i][c]) }
  IN IF P = {} THEN acc
     ELSE LET p == CHOOSE i \in P : \A k \in P : i <= k
              B == IF p = r + 1 THEN A ELSE RowSwap(A, r + 1, p)
              piv == TLCEval(VScal(R, Inv(R, B[r + 1][c]), B[r + 1]))
              D == TLCEval([i \in 1..NR(A) |->
                      IF i = r + 1 THEN piv
                      ELSE IF IsZero(R, B[i][c]) THEN B[i]
                      ELSE LET m == B[i][c]
                           IN [j \in 1..NC(A) |-> IF IsZero(R, piv[j]) THEN B[i][j]
                                                  ELSE Sub(R, B[i][j], Mul(R, m, piv[j]))]])
              d == Mul(R, acc[3], B[r + 1][c])
          IN <<D, r + 1, IF p = r + 1 THEN d ELSE Neg(R, d)>>
ReduceG(R, A) == FoldLeft(LAMBDA acc, c : RrefStep(R, acc, c), <<A, 0, One(R)>>, [c \in 1..NC(A) |-> c])
Rref2Step(acc, c) ==
  LET A == acc[1]
      r == acc[2]
      P == { i \in (r + 1)..Len(A) : c \in A[i] }
  IN IF P = {} THEN acc
     ELSE LET p == CHOOSE i \in P : \A k \in P : i <= k
              B == IF p = r + 1 THEN A ELSE RowSwap(A, r + 1, p)
          IN <<TLCEval([i \in 1..Len(A) |-> IF i # r + 1 /\ c \in B[i] THEN SymD(B[i], B[r + 1]) ELSE B[i]]), r + 1, 1>>
Reduce2(A) == LET t == FoldLeft(LAMBDA acc, c : Rref2Step(acc, c), <<OnesRows(A), 0, 1>>, [c \in 1..NC(A) |-> c])
              IN <<TLCEval([i \in 1..NR(A) |-> BitRow(t[1][i], NC(A))]), t[2], t[3]>>
Reduce(R, A) == IF Bits2(R) /\ NC(A) > 8 THEN Reduce2(A) ELSE ReduceG(R, A)
Rref(R, A) == Reduce(R, A)[1]
Rank(R, A) == Reduce(R, A)[2]
\* determinant over a field
FDet(R, A) == LET t == Reduce(R, A) IN IF t[2] = NR(A) THEN t[3] ELSE Zero(R)
Invertible(R, A) == Square(A) /\ Rank(R, A) = NR(A)
MInv(R, A) == ColSlice(Rref(R, Paste(A, Ident(R, NR(A)))), NC(A) + 1, 2 * NC(A))
\* rows in echelon form with leading ones: leaders strictly to the right, zero rows last
EchelonShape(R, A) ==
  /\ \A i \in DOMAIN A : LET l == LeaderPos(R, A[i])
       IN l >= 0 => Eq(R, A[i][l + 1], One(R))
  /\ \A i \in 1..(NR(A) - 1) :
       LET l == LeaderPos(R, A[i])
           m == LeaderPos(R, A[i + 1])
       IN m >= 0 => (l >= 0 /\ l < m)
SameMat(R, A, B) == IF R.k = "frac" THEN SameDims(A, B) /\ \A i \in DOMAIN A : \A j \in DOMAIN A[i] : Eq(R, A[i][j], B[i][j]) ELSE A = B
RowEquiv(R, A, B) == SameDims(A, B) /\ SameMat(R, Rref(R, A), Rref(R, B))
\* the rows of K are a basis of the null space of A
IsKernelBasis(R, A, K) ==
  /\ NC(K) = NC(A) /\ NR(K) = NC(A) - Rank(R, A)
  /\ \A i \in DOMAIN K : \A r \in DOMAIN A : IsZero(R, Dot(R, A[r], K[i]))
  /\ Rank(R, K) = NR(K)
=============================================================================
