----------------------------- MODULE BagMachine -----------------------------
(***************************************************************************)
(* tfacinfo<T>: an optional unit and a bag of factors, kept in ascending   *)
(* order.  A state is a sequence of such objects; a step is one call.      *)
(*   object == [hu: 0/1, u: unit, fs: sequence of <<factor, count>>]       *)
(***************************************************************************)
EXTENDS FinMath, Text

NoFactors == [hu |-> 0, u |-> 0, fs |-> <<>>]
EqR(R, a, b) == a = b
One0(R) == IF R.k = "z" THEN 1 ELSE One(R)
AddTo(R, b, f, c) ==
  LET at == { i \in DOMAIN b.fs : b.fs[i][1] = f }
      n == Cardinality({ i \in DOMAIN b.fs : RLess(R, b.fs[i][1], f) })
  IN IF at # {} THEN [b EXCEPT !.fs = [i \in DOMAIN b.fs |-> IF i \in at THEN <<f, b.fs[i][2] + c>> ELSE b.fs[i]]]
     ELSE [b EXCEPT !.fs = SubSeq(b.fs, 1, n) \o <<<<f, c>>>> \o SubSeq(b.fs, n + 1, Len(b.fs))]
WithUnit(R, b, u) == [b EXCEPT !.hu = 1, !.u = IF b.hu = 1 THEN RMul(R, b.u, u) ELSE u]
Merge(R, b, c) == LET d == FoldLeft(LAMBDA acc, p : AddTo(R, acc, p[1], p[2]), b, c.fs)
                  IN IF c.hu = 1 THEN WithUnit(R, d, c.u) ELSE d
ExpAll(R, b, n) == [hu |-> b.hu, u |-> IF b.hu = 1 THEN RPow(R, b.u, n) ELSE b.u,
                    fs |-> [i \in DOMAIN b.fs |-> <<b.fs[i][1], b.fs[i][2] * n>>]]
Total(b) == FoldLeft(LAMBDA acc, p : acc + p[2], 0, b.fs)
Product(R, b) == FoldLeft(LAMBDA acc, p : RMul(R, acc, RPow(R, p[1], p[2])), IF b.hu = 1 THEN b.u ELSE One0(R), b.fs)
\* every product of sub-multisets, as a function from value to how often it arises
SubBags(b) == FoldLeft(LAMBDA acc, p : { Append(t, n) : t \in acc, n \in 0..p[2] }, {<<>>}, b.fs)
SubProduct(R, b, t) == FoldLeft(LAMBDA acc, i : RMul(R, acc, RPow(R, b.fs[i][1], t[i])), One0(R), [i \in 1..Len(b.fs) |-> i])
NonDesc(R, s) == \A i \in 1..(Len(s) - 1) : ~RLess(R, s[i + 1], s[i])
Count(s, v) == Cardinality({ i \in DOMAIN s : s[i] = v })
\* s is a rearrangement of the values f(t), t in T
SameBag(s, T, f(_)) == LET fv == TLCEval([t \in T |-> f(t)]) IN
  Len(s) = Cardinality(T) /\ \A v \in Range(fv) : Count(s, v) = Cardinality({ t \in T : fv[t] = v })
ElText(R, v) == IF R.k = "z" THEN DecText(v) ELSE PrintText(R, v)
CARET == 94
BagText(R, b) ==
  JoinBy((IF b.hu = 1 THEN <<ElText(R, b.u)>> ELSE <<>>)
         \o [i \in DOMAIN b.fs |-> ElText(R, b.fs[i][1]) \o (IF b.fs[i][2] = 1 THEN <<>> ELSE <<CARET>> \o DecText(b.fs[i][2]))],
         SPACE)

\* [ok, regs]: is the outcome right, and what are the objects afterwards
BagStep(R, regs, e) ==
  LET i == e.i + 1
      j == e.j + 1
      b == regs[i]
      D(v) == IF R.k = "z" THEN v ELSE Dec(R, v)
      DS(v) == [n \in DOMAIN v |-> D(v[n])]
      Put(v) == [ok |-> e.x = 0, regs |-> [regs EXCEPT ![i] = v]]
      Is(p) == [ok |-> p, regs |-> regs]
      none == b.fs = <<>> /\ b.hu = 0
      T == SubBags(b)
  IN
  CASE e.op = "init" -> [ok |-> TRUE, regs |-> [n \in 1..e.n |-> NoFactors]]
    [] e.op = "clear" -> Put(NoFactors)
    [] e.op = "unit" -> Put(WithUnit(R, b, D(e.f)))
    [] e.op = "factor" -> Put(AddTo(R, b, D(e.f), e.c))
    [] e.op = "factor1" -> Put(AddTo(R, b, D(e.f), 1))
    [] e.op = "merge" -> Put(Merge(R, b, regs[j]))
    [] e.op = "expall" -> Put(ExpAll(R, b, e.c))
    [] e.op \in {"copy", "assign"} -> Put(regs[j])
    [] e.op = "unfactor" -> Is(e.x = 0 /\ D(e.r) = Product(R, b))
    [] e.op = "ndivs" -> Is(IF none THEN e.x = 1 ELSE e.x = 0 /\ e.r = Cardinality(T))
    [] e.op = "divs" -> Is(IF none THEN e.x = 1
                           ELSE e.x = 0 /\ LET ds == TLCEval(DS(e.r)) IN NonDesc(R, ds) /\ SameBag(ds, T, LAMBDA t : SubProduct(R, b, t)))
    [] e.op = "mpds" -> Is(IF none THEN e.x = 1
                           ELSE IF b.fs = <<>> THEN e.x = 0 /\ e.got = 0
                           ELSE e.x = 0 /\ e.got = 1 /\ NonDesc(R, DS(e.r))
                                /\ SameBag(DS(e.r), DOMAIN b.fs,
                                     LAMBDA n : Product(R, [b EXCEPT !.fs[n] = <<b.fs[n][1], b.fs[n][2] - 1>>])))
    [] e.op = "ith" -> Is(IF e.c >= 0 /\ e.c < Len(b.fs) THEN e.x = 0 /\ <<D(e.r[1]), e.r[2]>> = b.fs[e.c + 1] ELSE e.x = 1)
    [] e.op = "str" -> Is(e.x = 0 /\ e.r = BagText(R, b))
    [] OTHER -> Is(FALSE)
\* what the object shows of itself
Shows(R, b, o) ==
  /\ o.hu = b.hu /\ (b.hu = 1 => (IF R.k = "z" THEN o.u ELSE Dec(R, o.u)) = b.u)
  /\ [n \in DOMAIN o.fs |-> <<IF R.k = "z" THEN o.fs[n][1] ELSE Dec(R, o.fs[n][1]), o.fs[n][2]>>] = b.fs
  /\ o.nd = Len(b.fs) /\ o.nf = Total(b)
=============================================================================
