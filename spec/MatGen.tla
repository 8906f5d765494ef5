------------------------------- MODULE MatGen -------------------------------
(***************************************************************************)
(* Exhaustive small-scope exploration of vectors and matrices.             *)
(*                                                                         *)
(* Enumerates all matrices of small shapes over small rings (and for each  *)
(* a second matrix and a vector), checks the laws that tie the executable  *)
(* definitions of LinAlg.tla to the mathematics (determinant, rank, inverse,*)
(* kernel and row equivalence by their definitions), and emits for each a  *)
(* session of calls for the real classes.                                  *)
(***************************************************************************)
EXTENDS MatMachine, Json, IOUtils

Kind == IOEnv.KIND
Big  == IOEnv.SIZE = "big"

Zm(m) == ZmRing(m)
Quot(c, m) == [k |-> "quot", c |-> c, m |-> m]
F4  == Quot(F2PolyRing, {0, 1, 2})
F4p == Quot(PolyRing(Zm(2)), <<1, 1, 1>>)
F4t == Quot(PolyRing(F4), <<{0}, {0}>>)
\* instances: <<ring, entries, rows, columns>>
Scope ==
  CASE Kind \in {"bits", "t_bit"} -> [i \in 1..(IF Big THEN 9 ELSE 8) |->
          <<Zm(2), {0, 1}>> \o (<< <<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<2, 4>>, <<3, 4>> >>)[i]]
    [] Kind = "t_im" -> << <<Zm(3), 0..2, 2, 2>>, <<Zm(5), {0, 1, 3, 4}, 2, 2>>, <<Zm(3), 0..2, 2, 3>>, <<Zm(3), 0..2, 3, 2>>,
                           <<Zm(7), {0, 1, 5}, 2, 2>> >> \o (IF Big THEN << <<Zm(3), 0..2, 3, 3>> >> ELSE <<>>)
    [] Kind = "t_q" -> << <<[k |-> "q"], {<<0, 1>>, <<1, 1>>, <<-1, 2>>, <<3, 1>>}, 2, 2>>,
                          <<[k |-> "q"], {<<0, 1>>, <<1, 1>>, <<-2, 1>>}, 2, 3>> >>
    [] Kind = "t_f2pm" -> << <<F4, Elements(F4), 2, 2>>, <<F4, Elements(F4), 1, 3>>,
                             <<F4, {{}, {0}, {1}}, 2, 3>> >>
    [] Kind = "t_fppm" -> << <<F4p, Elements(F4p), 2, 2>>, <<F4p, {<<>>, <<1>>, <<0, 1>>}, 3, 2>> >>
    [] Kind = "t_f2npm" -> << <<F4t, Elements(F4t), 2, 2>> >>
    [] Kind = "t_f2p" -> << <<F2PolyRing, {{}, {0}, {1}, {0, 1}}, 2, 2>>, <<F2PolyRing, {{}, {0}, {1}}, 2, 3>> >>
    [] Kind = "t_fpp" -> << <<PolyRing(Zm(3)), {<<>>, <<1>>, <<2, 1>>, <<0, 2>>}, 2, 2>> >>

RECURSIVE Enc(_, _), EncRing(_)
Enc(R, v) == CASE R.k \in {"z", "zm", "q"} -> v
               [] R.k = "f2p" -> SetToSortSeq(v, <)
               [] R.k = "poly" -> [i \in DOMAIN v |-> Enc(R.c, v[i])]
               [] R.k = "quot" -> Enc(R.c, v)
EncRing(R) == CASE R.k \in {"z", "q", "f2p", "zm"} -> R
                [] R.k = "poly" -> [k |-> R.k, c |-> EncRing(R.c)]
                [] R.k = "quot" -> [k |-> "quot", c |-> EncRing(R.c), m |-> Enc(R.c, R.m)]
EncV(R, v) == [i \in DOMAIN v |-> Enc(R, v[i])]
EncM(R, A) == [i \in DOMAIN A |-> EncV(R, A[i])]

VARIABLES sc, A, done
gvars == <<sc, A, done>>
R0 == Scope[sc][1]
Ent == Scope[sc][2]
m0 == Scope[sc][3]
n0 == Scope[sc][4]
IsField == R0.k \in {"zm", "q", "quot"}
\* companions of A, rotated through the entries
Turn(x) == LET s == SetToSeq(Ent) IN s[((CHOOSE i \in DOMAIN s : s[i] = x) % Len(s)) + 1]
B == [i \in 1..m0 |-> [j \in 1..n0 |-> Turn(A[m0 + 1 - i][j])]]
w == [i \in 1..m0 |-> A[i][1]]

Dflt == [op |-> "vlen", d |-> 1, d2 |-> 2, a |-> 1, b |-> 2, n |-> 0, n2 |-> 0, s |-> Enc(R0, Zero(R0)), s2 |-> Enc(R0, One(R0))]
Op(o, d, a, b) == [Dflt EXCEPT !.op = o, !.d = d, !.a = a, !.b = b]
OpN(o, d, a, n) == [Dflt EXCEPT !.op = o, !.d = d, !.a = a, !.n = n]
\* M = <<A, B, A>>, V = <<first column, first row, first row>>
Ops ==
  <<Op("madd", 3, 1, 2), Op("msub", 3, 3, 1), Op("transp", 3, 1, 1), Op("mmul", 3, 1, 3), Op("mmul", 2, 2, 2),
    Op("mvec", 3, 1, 2), Op("vmat", 3, 1, 1), Op("meq", 1, 1, 2), Op("vdot", 1, 2, 2), Op("outer", 3, 1, 2),
    Op("mpred", 1, 1, 1), Op("vlead", 1, 2, 1), OpN("mrow", 3, 1, m0 - 1), OpN("mrow", 3, 1, m0), Op("paste", 3, 1, 2),
    Op("mstr", 1, 1, 1), Op("mcopy", 3, 1, 1)>>
  \o (IF IsField THEN <<Op("rr", 3, 1, 1), Op("mcopy", 3, 1, 1), Op("rech", 3, 1, 1), Op("rank", 1, 1, 1), Op("kerbas", 3, 1, 1),
                        Op("mcopy", 3, 1, 1), Op("rechnz", 3, 1, 1), Op("solve", 3, 1, 1), Op("mcopy", 3, 1, 1), Op("det", 1, 1, 1),
                        Op("inv", 3, 1, 1), OpN("mexp", 3, 1, 3), OpN("mexp", 3, 1, -2), OpN("mexp", 3, 1, 0),
                        Op("chkinv", 1, 1, 3), Op("mimul", 1, 1, 1)>>
      ELSE <<Op("eddet", 1, 1, 1), Op("edinv", 3, 1, 1), Op("vgcd", 1, 2, 1)>>)
Nope == CASE Kind = "bits" -> {"vmat", "solve", "rechnz"}
          [] OTHER -> {}
Session == [k |-> Kind, ring |-> EncRing(R0), zero |-> Enc(R0, Zero(R0)),
            init |-> <<<<EncV(R0, w), EncV(R0, A[1]), EncV(R0, A[1])>>, <<EncM(R0, A), EncM(R0, B), EncM(R0, A)>>>>,
            ops |-> SelectSeq(Ops, LAMBDA o : o.op \notin Nope)]

Init == /\ sc \in DOMAIN Scope
        /\ A \in [1..m0 -> [1..n0 -> Ent]]
        /\ done = FALSE
Emit == /\ ~done
        /\ PrintT("SESSION " \o ToJson(Session))
        /\ done' = TRUE
        /\ UNCHANGED <<sc, A>>
Spec == Init /\ [][Emit]_gvars

\* ---- the laws -------------------------------------------------------------
Minor(X, I, J) == LET r == SetToSortSeq(I, <) c == SetToSortSeq(J, <)
                  IN [i \in 1..Len(r) |-> [j \in 1..Len(c) |-> X[r[i]][c[j]]]]
MinI(a, b) == IF a < b THEN a ELSE b
DetLaws ==
  (done /\ m0 = n0) =>
    LET d == CofDet(R0, A)
    IN /\ IsField => FDet(R0, A) = d
       /\ CofDet(R0, Transp(A)) = d
       /\ CofDet(R0, MMul(R0, A, B)) = Mul(R0, d, CofDet(R0, B))
       /\ m0 > 1 => CofDet(R0, RowSwap(A, 1, 2)) = Neg(R0, d)
\* the rank is the size of the largest nonvanishing minor
RankLaws ==
  (done /\ IsField) =>
    LET k == Rank(R0, A)
        Nz(s) == \E I \in kSubset(s, 1..m0) : \E J \in kSubset(s, 1..n0) : ~IsZero(R0, CofDet(R0, Minor(A, I, J)))
    IN /\ k = 0 \/ Nz(k)
       /\ k = MinI(m0, n0) \/ ~Nz(k + 1)
       /\ k = Rank(R0, Transp(A))
RrefLaws ==
  (done /\ IsField) =>
    LET E == Rref(R0, A)
    IN /\ EchelonShape(R0, E)
       /\ Rref(R0, E) = E
       /\ \A i \in 1..m0 : LET l == LeaderPos(R0, E[i]) IN
            l >= 0 => \A k \in 1..m0 : k # i => IsZero(R0, E[k][l + 1])
       \* the rows span the same space: each has no effect on the rank of the other
       /\ Rank(R0, A \o E) = Rank(R0, A)
InverseLaws ==
  (done /\ IsField /\ m0 = n0) =>
    /\ Invertible(R0, A) <=> ~IsZero(R0, CofDet(R0, A))
    /\ Invertible(R0, A) => MMul(R0, A, MInv(R0, A)) = Ident(R0, n0) /\ MMul(R0, MInv(R0, A), A) = Ident(R0, n0)
\* rank-nullity, by counting the kernel (finite fields)
KernelLaws ==
  (done /\ IsField /\ R0.k # "q") =>
    LET F == Elements(R0)
        K == { v \in [1..n0 -> F] : \A i \in 1..m0 : IsZero(R0, Dot(R0, A[i], v)) }
    IN Cardinality(K) = Cardinality(F) ^ (n0 - Rank(R0, A))
AlgebraLaws ==
  done =>
    /\ MAdd(R0, A, B) = MAdd(R0, B, A)
    /\ MSub(R0, MAdd(R0, A, B), B) = A
    /\ Transp(MMul(R0, A, Transp(B))) = MMul(R0, B, Transp(A))
    /\ MVec(R0, A, A[1]) = Col(MMul(R0, A, Transp(<<A[1]>>)), 1)
    /\ VMat(R0, w, A) = MMul(R0, <<w>>, A)[1]
    /\ m0 = n0 => MPow(R0, A, 3) = MMul(R0, A, MMul(R0, A, A))
FastLaws ==
  (done /\ Bits2(R0)) =>
    /\ Reduce2(A) = ReduceG(R0, A)
    /\ MMul2(A, Transp(B)) = MMulG(R0, A, Transp(B))
TextLaws == done => LET p == ParseRows(R0, MBlock(Lines(MText(R0, A)))[1]) IN p.ok /\ p.v = A
=============================================================================
