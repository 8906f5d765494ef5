---------------------------- MODULE MatMachine ----------------------------
(***************************************************************************)
(* The vector and matrix classes as a machine with two register files,     *)
(* V of vectors and M of matrices, over one ring.  Every public call of    *)
(* bit_vector_t, bit_matrix_t, tvector<T> and tmatrix<T> is one action     *)
(* stating both files afterwards, or is refused and changes nothing.       *)
(*                                                                         *)
(* e.op, registers d d2 (destinations) a b (sources), ints n n2, scalar s, *)
(* vector or matrix argument v; observed: x refused, r result.             *)
(***************************************************************************)
EXTENDS LinAlg, RingMachine

DecV(R, j) == [i \in DOMAIN j |-> Dec(R, j[i])]
DecM(R, j) == [i \in DOMAIN j |-> DecV(R, j[i])]

\* ---- text -----------------------------------------------------------------
VText(R, u) == JoinBy([i \in 1..Len(u) |-> PrintText(R, u[i])], SPACE)
MText(R, A) == FoldLeft(LAMBDA acc, row : acc \o VText(R, row) \o <<NL>>, <<>>, A)
RECURSIVE TrimR(_), DropBlank(_)
TrimR(t) == IF t # <<>> /\ IsWs(t[Len(t)]) THEN TrimR(SubSeq(t, 1, Len(t) - 1)) ELSE t
Words(t) == SelectSeq(SplitBy([i \in DOMAIN t |-> IF IsWs(t[i]) THEN SPACE ELSE t[i]], SPACE), LAMBDA w : w # <<>>)
ParseV(R, t) == LET w == Words(t)
                    p == [i \in DOMAIN w |-> ParseText(R, w[i])]
                IN IF w = <<>> \/ \E i \in DOMAIN p : ~p[i].ok THEN Bad
                   ELSE Good([i \in DOMAIN p |-> p[i].v])
\* lines with comments and surrounding blanks removed
Lines(t) == LET ls == SplitBy(t, NL)
            IN [i \in DOMAIN ls |-> TrimR(TrimL(SplitBy(ls[i], 35)[1]))]
DropBlank(ls) == IF ls # <<>> /\ ls[1] = <<>> THEN DropBlank(Tail(ls)) ELSE ls
\* the first matrix in a list of lines: <<parsed, lines after it>>
MBlock(ls0) == LET ls == DropBlank(ls0)
                   E == { i \in DOMAIN ls : ls[i] = <<>> }
                   n == IF E = {} THEN Len(ls) ELSE (CHOOSE i \in E : \A k \in E : i <= k) - 1
               IN <<SubSeq(ls, 1, n), SubSeq(ls, n + 2, Len(ls))>>
ParseRows(R, rows) ==
  LET p == [i \in DOMAIN rows |-> ParseV(R, rows[i])]
  IN IF rows = <<>> \/ \E i \in DOMAIN p : ~p[i].ok THEN Bad
     ELSE IF \E i \in DOMAIN p : Len(p[i].v) # Len(p[1].v) THEN Bad
     ELSE Good([i \in DOMAIN p |-> p[i].v])
\* "[1 2 3]"
Bracketed(t) == Len(t) >= 2 /\ t[1] = 91 /\ t[Len(t)] = 93
Unbr(t) == SubSeq(t, 2, Len(t) - 1)
BracketV(R, t0) == LET t == TrimL(TrimR(t0)) IN IF Bracketed(t) THEN ParseV(R, Unbr(t)) ELSE Bad
\* "[[1 2] [3 4]]", and "[2 3 4]" is a column
BracketM(R, t0) ==
  LET t == TrimL(TrimR(t0)) IN
  IF ~Bracketed(t) THEN Bad
  ELSE IF 91 \notin Range0(Unbr(t))
       THEN LET p == ParseV(R, Unbr(t)) IN IF p.ok THEN Good([i \in DOMAIN p.v |-> <<p.v[i]>>]) ELSE Bad
       ELSE LET rows == SelectSeq([i \in DOMAIN SplitBy(Unbr(t), 93) |-> TrimR(TrimL(SplitBy(Unbr(t), 93)[i]))],
                                  LAMBDA w : w # <<>>)
            IN IF \A i \in DOMAIN rows : rows[i][1] = 91
               THEN ParseRows(R, [i \in DOMAIN rows |-> Tail(rows[i])]) ELSE Bad

\* ---- one call -------------------------------------------------------------
\* a nonzero element, if any, tells the class what 1 is
MExpDefined(R, A, n, bits) == bits \/ n >= 1 \/ ~IsZeroMat(R, A)

MatStep(R, V, M, e, oV, oM, bits) ==
  LET A == M[e.a]
      B == M[e.b]
      D == M[e.d]
      u == V[e.a]
      w == V[e.b]
      t == V[e.d]
      S == Dec(R, e.s)
      n == e.n
      St(ok, v, m) == [ok |-> ok, V |-> v, M |-> m]
      WV(v) == St(e.x = 0, [V EXCEPT ![e.d] = v], M)
      WM(m) == St(e.x = 0, V, [M EXCEPT ![e.d] = m])
      Ret(b) == St(e.x = 0 /\ b, V, M)
      Refuse == St(e.x = 1, V, M)
      VV(x, y, f(_, _, _)) == IF Len(x) = Len(y) THEN WV(f(R, x, y)) ELSE Refuse
      MM(x, y, f(_, _, _)) == IF SameDims(x, y) THEN WM(f(R, x, y)) ELSE Refuse
      VDiv(x, y) == IF Len(x) = Len(y) /\ \A i \in DOMAIN y : DivOk(R, y[i])
                    THEN WV([i \in DOMAIN x |-> Quo(R, x[i], y[i])]) ELSE Refuse
      \* an operation with a yes/no answer that writes d only when it says yes
      May(yes, v, m) == IF yes THEN St(e.x = 0 /\ e.r = 1, v, m) ELSE Ret(e.r = 0)
  IN
  CASE e.op = "init" -> St(e.x = 0, [i \in DOMAIN e.v |-> DecV(R, e.v[i])], [i \in DOMAIN e.m |-> DecM(R, e.m[i])])
  \* vectors
    [] e.op = "vset" -> WV(DecV(R, e.v))
    [] e.op = "vnew" -> WV(<<>>)
    [] e.op = "vfill" -> IF n <= 0 THEN Refuse ELSE WV([i \in 1..n |-> S])
    [] e.op \in {"vcopy", "vasg"} -> WV(u)
    [] e.op = "vasgs" -> WV([i \in 1..(IF t = <<>> THEN 1 ELSE Len(t)) |-> S])
    [] e.op = "vlen" -> Ret(e.r = Len(u))
    [] e.op = "vget" -> IF n < 0 \/ n >= Len(u) THEN Refuse ELSE Ret(Dec(R, e.r) = u[n + 1])
    [] e.op = "vput" -> IF n < 0 \/ n >= Len(t) THEN Refuse ELSE WV([t EXCEPT ![n + 1] = S])
    [] e.op = "vtog" -> IF n < 0 \/ n >= Len(t) THEN Refuse ELSE WV([t EXCEPT ![n + 1] = 1 - @])
    [] e.op = "vadd" -> VV(u, w, VAdd)
    [] e.op = "vsub" -> VV(u, w, VSub)
    [] e.op = "vmul" -> VV(u, w, VMul)
    [] e.op = "vdiv" -> VDiv(u, w)
    [] e.op \in {"viadd"} -> VV(t, w, VAdd)
    [] e.op \in {"visub", "vacc1"} -> VV(t, w, VSub)
    [] e.op = "vimul" -> VV(t, w, VMul)
    [] e.op = "vneg" -> WV(VNeg(R, u))
    [] e.op = "vsmul" -> WV(VScal(R, S, u))
    [] e.op \in {"vismul", "vmultby"} -> WV(VScal(R, S, t))
    [] e.op = "visdiv" -> IF DivOk(R, S) \/ t = <<>> THEN WV([i \in DOMAIN t |-> Quo(R, t[i], S)]) ELSE Refuse
    \* the scalar argument is the vector's own element
    [] e.op = "vismulself" -> IF n < 0 \/ n >= Len(t) THEN Refuse ELSE WV(VScal(R, t[n + 1], t))
    [] e.op = "visdivself" -> IF n < 0 \/ n >= Len(t) \/ ~DivOk(R, t[n + 1]) THEN Refuse
                              ELSE WV([i \in DOMAIN t |-> Quo(R, t[i], t[n + 1])])
    [] e.op = "vdot" -> IF Len(u) # Len(w) THEN Refuse ELSE Ret(Dec(R, e.r) = Dot(R, u, w))
    [] e.op = "vexp" -> IF \A i \in DOMAIN u : ExpOk(R, u[i], n)
                        THEN WV([i \in DOMAIN u |-> ExpVal(R, u[i], n)]) ELSE Refuse
    [] e.op = "veq" -> Ret(e.r = <<B2I(u = w), B2I(u # w)>>)
    [] e.op = "veqs" -> Ret(LET q == \A i \in DOMAIN u : u[i] = S IN e.r = <<B2I(q), B2I(~q)>>)
    [] e.op = "vzero" -> Ret(e.r = B2I(\A i \in DOMAIN u : IsZero(R, u[i])))
    [] e.op = "vgcd" -> Ret(LET g == Dec(R, e.r)
                                h == FoldLeft(LAMBDA acc, x : PGcd(R, acc, x), Zero(R), u)
                            IN IF IsZero(R, h) THEN IsZero(R, g) ELSE ~IsZero(R, g) /\ Monic(R, g) = h)
    [] e.op = "vlead" -> Ret(LET p == LeaderPos(R, u) IN IF p < 0 THEN e.r = <<0>> ELSE e.r = <<1, p>>)
    [] e.op = "vsort" -> St(e.x = 0 /\ SortedBy(R, oV[e.d]) /\ SameBag(oV[e.d], t), [V EXCEPT ![e.d] = oV[e.d]], M)
    [] e.op = "vswap" -> IF Len(t) # Len(u) THEN Refuse
                         ELSE St(e.x = 0, [V EXCEPT ![e.d] = u, ![e.a] = t], M)
    [] e.op = "vtrim" -> IF n < 1 \/ n > Len(t) THEN Refuse ELSE WV(SubSeq(t, 1, n))
    [] e.op = "vaccum" -> IF Len(t) # Len(w) THEN Refuse
                          ELSE WV(VSub(R, VScal(R, S, t), VScal(R, Dec(R, e.s2), w)))
    [] e.op = "vmat" -> IF Len(u) # NR(B) THEN Refuse ELSE WV(VMat(R, u, B))
    [] e.op = "vstr" -> Ret(e.r = VText(R, u))
    [] e.op = "vsqz" -> Ret(e.r = JoinBy([i \in 1..Len(u) |-> PrintText(R, u[i])], 0))
    [] e.op = "vcr" -> Ret(e.r = FoldLeft(LAMBDA acc, x : acc \o PrintText(R, x) \o <<NL>>, <<>>, u))
    [] e.op \in {"vparse", "vload"} ->
         LET p == ParseV(R, SplitBy(e.v, NL)[1]) IN
         IF p.ok THEN May(TRUE, [V EXCEPT ![e.d] = p.v], M) ELSE Ret(e.r = 0)
    [] e.op = "vbrk" -> LET p == BracketV(R, e.v) IN IF p.ok THEN May(TRUE, [V EXCEPT ![e.d] = p.v], M) ELSE Ret(e.r = 0)
  \* matrices
    [] e.op = "mset" -> WM(DecM(R, e.v))
    [] e.op = "mnew" -> WM(<<>>)
    [] e.op = "mfill" -> IF n <= 0 \/ e.n2 <= 0 THEN Refuse ELSE WM([i \in 1..n |-> [j \in 1..e.n2 |-> S]])
    [] e.op \in {"mcopy", "masg"} -> WM(A)
    [] e.op = "masgs" -> IF D = <<>> THEN WM(<<<<S>>>>) ELSE WM([i \in DOMAIN D |-> [j \in DOMAIN D[i] |-> S]])
    [] e.op = "mdims" -> Ret(e.r = <<NR(A), NC(A), B2I(Square(A))>>)
    [] e.op = "mget" -> IF n < 0 \/ n >= NR(A) \/ e.n2 < 0 \/ e.n2 >= NC(A) THEN Refuse
                        ELSE Ret(Dec(R, e.r) = A[n + 1][e.n2 + 1])
    [] e.op = "mput" -> IF n < 0 \/ n >= NR(D) \/ e.n2 < 0 \/ e.n2 >= NC(D) THEN Refuse
                        ELSE WM([D EXCEPT ![n + 1][e.n2 + 1] = S])
    [] e.op = "mrow" -> IF n < 0 \/ n >= NR(A) THEN Refuse ELSE WV(A[n + 1])
    \* rows are replaced only by rows of the same length
    [] e.op = "mputrow" -> IF n < 0 \/ n >= NR(D) THEN Refuse ELSE WM([D EXCEPT ![n + 1] = u])
    [] e.op = "mcol" -> IF n < 0 \/ n >= NC(A) THEN Refuse ELSE WV(Col(A, n + 1))
    [] e.op = "mputcol" -> IF n < 0 \/ n >= NC(D) \/ Len(u) # NR(D) THEN Refuse
                           ELSE WM([i \in DOMAIN D |-> [D[i] EXCEPT ![n + 1] = u[i]]])
    [] e.op = "madd" -> MM(A, B, MAdd)
    [] e.op = "msub" -> MM(A, B, MSub)
    [] e.op = "miadd" -> MM(D, B, MAdd)
    [] e.op = "misub" -> MM(D, B, MSub)
    [] e.op = "mneg" -> WM(MNeg(R, A))
    [] e.op = "madds" -> IF Square(A) THEN WM(MAddDiag(R, A, S)) ELSE Refuse
    [] e.op = "msubs" -> IF Square(A) THEN WM(MAddDiag(R, A, Neg(R, S))) ELSE Refuse
    [] e.op = "miadds" -> IF Square(D) THEN WM(MAddDiag(R, D, S)) ELSE Refuse
    [] e.op = "misubs" -> IF Square(D) THEN WM(MAddDiag(R, D, Neg(R, S))) ELSE Refuse
    [] e.op = "msmul" -> WM(MScal(R, S, A))
    [] e.op = "mismul" -> WM(MScal(R, S, D))
    [] e.op = "mismulself" -> IF n < 0 \/ n >= NR(D) \/ e.n2 < 0 \/ e.n2 >= NC(D) THEN Refuse
                              ELSE WM(MScal(R, D[n + 1][e.n2 + 1], D))
  \* the scalar or row is a reference to a part of the object itself
    [] e.op \in {"miaddself", "misubself", "masgself"} ->
         IF n < 0 \/ n >= NR(D) \/ e.n2 < 0 \/ e.n2 >= NC(D) THEN Refuse
         ELSE LET x == D[n + 1][e.n2 + 1]
              IN IF e.op = "masgself" THEN WM([i \in DOMAIN D |-> [j \in DOMAIN D[i] |-> x]])
                 ELSE IF ~Square(D) THEN Refuse
                 ELSE WM(MAddDiag(R, D, IF e.op = "miaddself" THEN x ELSE Neg(R, x)))
    [] e.op = "vasgself" -> IF n < 0 \/ n >= Len(t) THEN Refuse ELSE WV([i \in DOMAIN t |-> t[n + 1]])
    [] e.op = "vaccself" -> IF n < 0 \/ n >= Len(t) \/ e.n2 < 0 \/ e.n2 >= Len(t) THEN Refuse
                            ELSE WV(VSub(R, VScal(R, t[n + 1], t), VScal(R, t[e.n2 + 1], t)))
    [] e.op = "mputrowself" -> IF n < 0 \/ n >= NR(D) \/ e.n2 < 0 \/ e.n2 >= NR(D) THEN Refuse
                               ELSE WM([D EXCEPT ![n + 1] = D[e.n2 + 1]])
    [] e.op = "mmul" -> IF NC(A) = NR(B) THEN WM(MMul(R, A, B)) ELSE Refuse
    [] e.op = "mimul" -> IF NC(D) = NR(B) THEN WM(MMul(R, D, B)) ELSE Refuse
    [] e.op = "mvec" -> IF NC(A) = Len(w) THEN WV(MVec(R, A, w)) ELSE Refuse
    [] e.op = "outer" -> WM(Outer(R, u, w))
    [] e.op = "transp" -> WM(Transp(A))
    [] e.op = "fliph" -> WM([i \in DOMAIN A |-> Reverse(A[i])])
    [] e.op = "flipv" -> WM(Reverse(A))
    [] e.op = "fliphv" -> WM(Reverse([i \in DOMAIN A |-> Reverse(A[i])]))
    [] e.op = "findrow" -> Ret(LET F == { i \in DOMAIN A : A[i] = w }
                               IN IF F = {} THEN e.r = <<0>>
                                  ELSE e.r = <<1, (CHOOSE i \in F : \A k \in F : i <= k) - 1>>)
    [] e.op = "findone" -> IF IsZeroMat(R, A) THEN Ret(e.r = 0) ELSE Ret(Dec(R, e.r) = One(R))
    [] e.op = "makeI" -> IF Square(A) THEN WM(Ident(R, NR(A))) ELSE Refuse
    [] e.op = "mpred" -> Ret(e.r = <<B2I(IsZeroMat(R, A)), B2I(Square(A)), B2I(Square(A) /\ A = Ident(R, NR(A)))>>)
    [] e.op = "mswap" -> IF n < 0 \/ n >= NR(D) \/ e.n2 < 0 \/ e.n2 >= NR(D) THEN Refuse
                         ELSE WM(RowSwap(D, n + 1, e.n2 + 1))
    [] e.op = "meq" -> IF SameDims(A, B) THEN Ret(e.r = <<B2I(A = B), B2I(A # B)>>) ELSE Refuse
    [] e.op = "meqs" -> Ret(LET q == \A i \in DOMAIN A : \A j \in DOMAIN A[i] : A[i][j] = S IN e.r = <<B2I(q), B2I(~q)>>)
    [] e.op = "paste" -> IF NR(A) = NR(B) THEN WM(Paste(A, B)) ELSE Refuse
    [] e.op = "pastev" -> IF NR(A) = Len(w) THEN WM([i \in DOMAIN A |-> Append(A[i], w[i])]) ELSE Refuse
    [] e.op = "split" -> IF n <= 0 \/ n >= NC(A) THEN Refuse
                         ELSE St(e.x = 0, V, [M EXCEPT ![e.d] = ColSlice(A, 1, n), ![e.d2] = ColSlice(A, n + 1, NC(A))])
    [] e.op = "trimrows" -> IF n < 1 \/ n > NR(D) THEN Refuse ELSE WM(SubSeq(D, 1, n))
    [] e.op = "mstr" -> Ret(e.r = MText(R, A))
    [] e.op \in {"mparse", "mload"} ->
         LET p == ParseRows(R, MBlock(Lines(e.v))[1]) IN
         IF p.ok THEN May(TRUE, V, [M EXCEPT ![e.d] = p.v]) ELSE Ret(e.r = 0)
    [] e.op = "mparse2" ->          \* two matrices from one stream
         LET b1 == MBlock(Lines(e.v))
             b2 == MBlock(b1[2])
             p == ParseRows(R, b1[1])
             q == ParseRows(R, b2[1])
         IN IF p.ok /\ q.ok THEN May(TRUE, V, [M EXCEPT ![e.d] = p.v, ![e.d2] = q.v]) ELSE Ret(e.r = 0)
    [] e.op = "mbrk" -> LET p == BracketM(R, e.v) IN IF p.ok THEN May(TRUE, V, [M EXCEPT ![e.d] = p.v]) ELSE Ret(e.r = 0)
    [] e.op = "mfile" -> WM(A)      \* stored to a file and loaded again
  \* linear algebra over a field
    [] e.op = "rr" -> St(e.x = 0 /\ EchelonShape(R, oM[e.d]) /\ RowEquiv(R, D, oM[e.d]), V, [M EXCEPT ![e.d] = oM[e.d]])
    [] e.op = "rech" -> WM(Rref(R, D))
    [] e.op = "rrnz" -> IF Rank(R, A) = 0 THEN Ret(e.r = 0)
                        ELSE St(e.x = 0 /\ e.r = 1 /\ NR(oM[e.d]) = Rank(R, A) /\ EchelonShape(R, oM[e.d])
                                /\ Rref(R, oM[e.d]) = SubSeq(Rref(R, A), 1, Rank(R, A)), V, [M EXCEPT ![e.d] = oM[e.d]])
    [] e.op = "rechnz" -> May(Rank(R, A) > 0, V, [M EXCEPT ![e.d] = SubSeq(Rref(R, A), 1, Rank(R, A))])
    [] e.op = "rank" -> Ret(e.r = Rank(R, A))
    [] e.op = "kerbas" -> IF Rank(R, A) = NC(A) THEN Ret(e.r = 0)
                          ELSE St(e.x = 0 /\ e.r = 1 /\ IsKernelBasis(R, A, oM[e.d]), V, [M EXCEPT ![e.d] = oM[e.d]])
    [] e.op = "solve" ->            \* the unique x with A x = w, if there is exactly one
         IF Len(w) # NR(A) THEN St(e.x = 1 \/ e.r = 0, V, M)
         ELSE LET P == Reduce(R, [i \in DOMAIN A |-> Append(A[i], w[i])])
                  uniq == Rank(R, A) = NC(A) /\ P[2] = NC(A)
              IN May(uniq, [V EXCEPT ![e.d] = [i \in 1..NC(A) |-> P[1][i][NC(A) + 1]]], M)
    [] e.op = "inv" -> IF ~Square(A) THEN Refuse
                       ELSE IF Invertible(R, A) THEN May(TRUE, V, [M EXCEPT ![e.d] = MInv(R, A)]) ELSE Ret(e.r = 0)
    [] e.op = "det" -> IF ~Square(A) THEN Refuse ELSE Ret(Dec(R, e.r) = FDet(R, A))
    [] e.op = "mexp" -> IF ~Square(A) \/ ~MExpDefined(R, A, n, bits) THEN Refuse
                        ELSE IF n >= 1 THEN May(TRUE, V, [M EXCEPT ![e.d] = MPow(R, A, n)])
                        ELSE IF Invertible(R, A) THEN May(TRUE, V, [M EXCEPT ![e.d] = MPow(R, MInv(R, A), -n)])
                        ELSE Ret(e.r = 0)
    \* companion predicates of the classes: silent when right, refused when wrong
    [] e.op = "chkinv" -> IF Square(A) /\ SameDims(A, B) /\ MMul(R, A, B) = Ident(R, NR(A)) /\ MMul(R, B, A) = Ident(R, NR(A)) THEN Ret(TRUE) ELSE Refuse
    [] e.op = "chkker" -> IF NC(A) = NC(B) /\ \A i \in DOMAIN B : \A r \in DOMAIN A : IsZero(R, Dot(R, A[r], B[i])) THEN Ret(TRUE) ELSE Refuse
  \* determinants over polynomial rings, without fractions
    [] e.op = "eddet" -> IF ~Square(A) THEN Refuse ELSE Ret(Dec(R, e.r) = CofDet(R, A))
    [] e.op = "edinv" -> IF ~Square(A) THEN Refuse
                         ELSE IF e.r = 1 THEN St(e.x = 0 /\ MMul(R, A, oM[e.d]) = Ident(R, NR(A)), V, [M EXCEPT ![e.d] = oM[e.d]])
                         ELSE Ret(e.r = 0 /\ (R.k = "f2p" => CofDet(R, A) # One(R)))
    [] OTHER -> St(FALSE, V, M)
=============================================================================
