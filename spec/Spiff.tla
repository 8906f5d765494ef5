-------------------------------- MODULE Spiff --------------------------------
(***************************************************************************)
(* The spiff program: every subcommand as a relation between an argument   *)
(* list (with standard input and files) and what is printed.  An outcome   *)
(* e has  a: arguments as strings, v: the same as character codes,         *)
(* in: standard input, files: <<name, contents>> pairs, rc: exit status,   *)
(* out: standard output, err: 1 iff anything was written on standard error *)
(* The first argument is the subcommand.  Whatever the arguments, the      *)
(* program ends by itself with status 0 or 1.  Malformed calls are         *)
(* refused: a message on standard error, and no complete result.           *)
(* TRUE stands for "nothing more is promised" (for example residue fields  *)
(* asked for over a composite modulus).                                    *)
(***************************************************************************)
EXTENDS Calc, LpMath, CycMath

\* ---- the inventory: subcommand, ring family, action ------------------------
Poly == <<"list", "op", "deg", "gcd", "lcm", "totient", "test", "find", "factor", "divisors", "eval", "random", "qp", "mat_op", "comp_mx">>
Inventory == <<
  <<"z_op", "z", "op">>, <<"z_gcd", "z", "gcd">>, <<"z_lcm", "z", "lcm">>, <<"z_totient", "z", "totient">>,
  <<"z_test_prime", "z", "test">>, <<"z_nth_prime", "z", "nth">>, <<"z_list", "z", "range">>, <<"z_factor", "z", "factor">>,
  <<"z_divisors", "z", "divisors">>, <<"z_mat_op", "z", "mat_op">>,
  <<"q_op", "q", "op">>, <<"q_mat_op", "q", "mat_op">>, <<"q_vec_op", "q", "vec_op">>, <<"q_p_op", "q_p", "op">>,
  <<"q_cyclotomic", "q_p", "cyclo">>,
  <<"f2_op", "f2", "op">>, <<"f2_random", "f2", "random">>, <<"f2_mat_op", "f2", "mat_op">>, <<"f2_vec_op", "f2", "vec_op">>,
  <<"f2_mat_ch_pol", "f2", "mat_ch_pol">>, <<"f2_mat_ord", "f2", "mat_ord">>, <<"f2_mat_random", "f2", "mat_random">>,
  <<"f2_p_list", "f2_p", "list">>, <<"f2_p_op", "f2_p", "op">>, <<"f2_p_deg", "f2_p", "deg">>, <<"f2_p_gcd", "f2_p", "gcd">>,
  <<"f2_p_lcm", "f2_p", "lcm">>, <<"f2_p_totient", "f2_p", "totient">>, <<"f2_p_test", "f2_p", "test">>, <<"f2_p_find", "f2_p", "find">>,
  <<"f2_p_period", "f2_p", "period">>, <<"f2_p_factor", "f2_p", "factor">>, <<"f2_p_divisors", "f2_p", "divisors">>,
  <<"f2_p_eval", "f2_p", "eval">>, <<"f2_p_random", "f2_p", "random">>, <<"f2_p_qp", "f2_p", "qp">>, <<"f2_p_mat_op", "f2_p", "mat_op">>,
  <<"f2_p_comp_mx", "f2_p", "comp_mx">>,
  <<"f2_pm_list", "f2_pm", "list">>, <<"f2_pm_op", "f2_pm", "op">>, <<"f2_pm_tbl", "f2_pm", "tbl">>, <<"f2_pm_ord", "f2_pm", "ord">>,
  <<"f2_pm_find_gen", "f2_pm", "find_gen">>, <<"f2_pm_log", "f2_pm", "log">>, <<"f2_pm_ch_pol", "f2_pm", "ch_pol">>,
  <<"f2_pm_min_pol", "f2_pm", "min_pol">>, <<"f2_pm_convert", "f2_pm", "convert">>, <<"f2_pm_random", "f2_pm", "random">>,
  <<"f2_pm_mat_op", "f2_pm", "mat_op">>, <<"f2_pm_vec_op", "f2_pm", "vec_op">>, <<"f2_pm_mat_solve", "f2_pm", "mat_solve">>,
  <<"f2_pm_mat_ch_pol", "f2_pm", "mat_ch_pol">>, <<"f2_pm_mat_diagonalizable", "f2_pm", "mat_diag">>, <<"f2_pm_mat_ord", "f2_pm", "mat_ord">>,
  <<"f2_pm_mat_random", "f2_pm", "mat_random">>,
  <<"f2_pr_op", "f2_pr", "op">>, <<"f2_pr_mat_op", "f2_pr", "mat_op">>, <<"f2_pr_random", "f2_pr", "random">>,
  <<"f2_pr_mat_random", "f2_pr", "mat_random">>,
  <<"f2n_p_list", "f2n_p", "list">>, <<"f2n_p_op", "f2n_p", "op">>, <<"f2n_p_deg", "f2n_p", "deg">>, <<"f2n_p_gcd", "f2n_p", "gcd">>,
  <<"f2n_p_lcm", "f2n_p", "lcm">>, <<"f2n_p_totient", "f2n_p", "totient">>, <<"f2n_p_test", "f2n_p", "test">>, <<"f2n_p_find", "f2n_p", "find">>,
  <<"f2n_p_factor", "f2n_p", "factor">>, <<"f2n_p_divisors", "f2n_p", "divisors">>, <<"f2n_p_eval", "f2n_p", "eval">>,
  <<"f2n_p_random", "f2n_p", "random">>, <<"f2n_p_comp_mx", "f2n_p", "comp_mx">>, <<"f2n_p_mat_op", "f2n_p", "mat_op">>, <<"f2n_p_qp", "f2n_p", "qp">>,
  <<"f2n_pm_list", "f2n_pm", "list">>, <<"f2n_pm_op", "f2n_pm", "op">>, <<"f2n_pm_tbl", "f2n_pm", "tbl">>, <<"f2n_pm_ord", "f2n_pm", "ord">>,
  <<"f2n_pm_find_gen", "f2n_pm", "find_gen">>, <<"f2n_pm_log", "f2n_pm", "log">>, <<"f2n_pm_ch_pol", "f2n_pm", "ch_pol">>,
  <<"f2n_pm_min_pol", "f2n_pm", "min_pol">>, <<"f2n_pm_random", "f2n_pm", "random">>, <<"f2n_pm_mat_op", "f2n_pm", "mat_op">>,
  <<"f2n_pm_vec_op", "f2n_pm", "vec_op">>, <<"f2n_pm_mat_random", "f2n_pm", "mat_random">>,
  <<"f2n_pr_op", "f2n_pr", "op">>, <<"f2n_pr_mat_op", "f2n_pr", "mat_op">>,
  <<"fp_list", "fp", "list">>, <<"fp_op", "fp", "op">>, <<"fp_tbl", "fp", "tbl">>, <<"fp_ord", "fp", "ord">>, <<"fp_max_ord", "fp", "max_ord">>,
  <<"fp_orbit", "fp", "orbit">>, <<"fp_find_gen", "fp", "find_gen">>, <<"fp_log", "fp", "log">>, <<"fp_random", "fp", "random">>,
  <<"fp_mat_op", "fp", "mat_op">>, <<"fp_vec_op", "fp", "vec_op">>, <<"fp_mat_ch_pol", "fp", "mat_ch_pol">>, <<"fp_mat_ord", "fp", "mat_ord">>,
  <<"fp_mat_random", "fp", "mat_random">>,
  <<"fp_p_list", "fp_p", "list">>, <<"fp_p_op", "fp_p", "op">>, <<"fp_p_mat_op", "fp_p", "mat_op">>, <<"fp_p_comp_mx", "fp_p", "comp_mx">>,
  <<"fp_p_deg", "fp_p", "deg">>, <<"fp_p_gcd", "fp_p", "gcd">>, <<"fp_p_lcm", "fp_p", "lcm">>, <<"fp_p_totient", "fp_p", "totient">>,
  <<"fp_p_test", "fp_p", "test">>, <<"fp_p_find", "fp_p", "find">>, <<"fp_p_factor", "fp_p", "factor">>, <<"fp_p_divisors", "fp_p", "divisors">>,
  <<"fp_p_eval", "fp_p", "eval">>, <<"fp_p_random", "fp_p", "random">>, <<"fp_p_qp", "fp_p", "qp">>,
  <<"fp_pm_list", "fp_pm", "list">>, <<"fp_pm_op", "fp_pm", "op">>, <<"fp_pm_tbl", "fp_pm", "tbl">>, <<"fp_pm_ord", "fp_pm", "ord1">>,
  <<"fp_pm_ch_pol", "fp_pm", "ch_pol">>, <<"fp_pm_min_pol", "fp_pm", "min_pol">>, <<"fp_pm_random", "fp_pm", "random">>,
  <<"fp_pm_mat_op", "fp_pm", "mat_op">>, <<"fp_pm_vecop", "fp_pm", "vec_op">>, <<"fp_pm_mat_ord", "fp_pm", "mat_ord">>,
  <<"fp_pm_mat_random", "fp_pm", "mat_random">>,
  <<"fp_pr_op", "fp_pr", "op">>, <<"fp_pr_mat_op", "fp_pr", "mat_op">>,
  <<"fpn_p_op", "fpn_p", "op">>, <<"fpn_p_mat_op", "fpn_p", "mat_op">>, <<"fpn_p_gcd", "fpn_p", "gcd">>, <<"fpn_p_qp", "fpn_p", "qp">>,
  <<"fpn_pm_op", "fpn_pm", "op">>, <<"fpn_pm_mat_op", "fpn_pm", "mat_op">> >>
Names == { Inventory[i][1] : i \in DOMAIN Inventory }
Entry(c) == Inventory[CHOOSE i \in DOMAIN Inventory : Inventory[i][1] = c]

\* ---- readings of arguments: [s |-> "ok" / "open" / "bad", v |-> value] -----
OkV(v) == [s |-> "ok", v |-> v]
OpenV == [s |-> "open"]
BadV == [s |-> "bad"]
RdInt(t) == IF IsInt(t) THEN (IF Len(t) <= 9 THEN OkV(IntVal(t)) ELSE OpenV)
            ELSE IF t # <<>> /\ (NoNumber(t) \/ t[1] \in 97..122) THEN BadV ELSE OpenV
Rd(R, t) == IF R.k = "z" THEN RdInt(t)
            ELSE IF Len(t) > (IF R.k \in {"zm", "q"} THEN 9 ELSE 60) THEN OpenV
            ELSE LET p == ParseText(R, t) IN IF p.ok THEN OkV(p.v) ELSE IF NoNumber(t) THEN BadV ELSE OpenV
\* "3" or "2-4"
RdRange(t) == LET w == SplitBy(t, MINUS)
              IN IF NoNumber(t) THEN BadV
                 ELSE IF Len(w) \in {1, 2} /\ \A i \in DOMAIN w : AllDigits(w[i]) /\ Len(w[i]) <= 6
                 THEN (IF IntVal(w[1]) <= IntVal(w[Len(w)]) THEN OkV(<<IntVal(w[1]), IntVal(w[Len(w)])>>) ELSE OpenV)
                 ELSE OpenV
Z == [k |-> "z"]
QQ == [k |-> "q"]
QuotR(P, m) == [k |-> "quot", c |-> P, m |-> m]
FracR(P) == [k |-> "frac", c |-> P]

\* ---- rings named on the command line --------------------------------------
\* how many arguments name the ring
Arity(fam) == CASE fam \in {"z", "q", "q_p", "f2", "f2_p", "f2_pr"} -> 0
                [] fam \in {"f2_pm", "f2n_p", "f2n_pr", "fp", "fp_p", "fp_pr"} -> 1
                [] fam \in {"f2n_pm", "fp_pm", "fpn_p"} -> 2
                [] fam = "fpn_pm" -> 3
Base(fam) == CASE fam = "z" -> Z [] fam = "q" -> QQ [] fam = "q_p" -> PolyRing(QQ) [] fam = "f2" -> ZmRing(2)
               [] fam = "f2_p" -> F2 [] fam = "f2_pr" -> FracR(F2)
MaxPow(q, d, cap) == PowUpTo(q, d, cap)
\* a prime; a modulus over P of positive degree
RdPrime(t) == LET r == RdInt(t) IN IF r.s = "ok" /\ (r.v > 1000000 \/ ~IsPrime(r.v)) THEN OpenV ELSE r
RdMod(P, t) == LET r == Rd(P, t) IN IF r.s = "ok" /\ Deg(P, r.v) < 1 THEN OpenV ELSE r
\* ... that gives a field
RdFieldMod(P, t) == LET r == RdMod(P, t) IN IF r.s = "ok" /\ ~Irred(P, r.v) THEN OpenV ELSE r
Then(r, F(_)) == IF r.s = "ok" THEN F(r.v) ELSE r
RingOfArgs(fam, ts) ==
  CASE Arity(fam) = 0 -> OkV(Base(fam))
    [] fam = "fp" -> Then(RdInt(ts[1]), LAMBDA m : IF m >= 2 /\ m < 1000000 THEN OkV(ZmRing(m)) ELSE OpenV)
    [] fam = "f2_pm" -> Then(RdMod(F2, ts[1]), LAMBDA m : OkV(QuotR(F2, m)))
    [] fam \in {"f2n_p", "f2n_pm", "f2n_pr"} ->
         Then(RdFieldMod(F2, ts[1]), LAMBDA im :
           LET P == PolyRing(QuotR(F2, im))
           IN IF fam = "f2n_p" THEN OkV(P) ELSE IF fam = "f2n_pr" THEN OkV(FracR(P))
              ELSE Then(RdMod(P, ts[2]), LAMBDA om : OkV(QuotR(P, om))))
    [] fam \in {"fp_p", "fp_pr", "fp_pm", "fpn_p", "fpn_pm"} ->
         Then(RdPrime(ts[1]), LAMBDA p :
           LET P == PolyRing(ZmRing(p))
           IN IF fam = "fp_p" THEN OkV(P) ELSE IF fam = "fp_pr" THEN OkV(FracR(P))
              ELSE IF fam = "fp_pm" THEN Then(RdMod(P, ts[2]), LAMBDA m : OkV(QuotR(P, m)))
              ELSE Then(RdFieldMod(P, ts[2]), LAMBDA im :
                     LET P2 == PolyRing(QuotR(P, im))
                     IN IF fam = "fpn_p" THEN OkV(P2) ELSE Then(RdMod(P2, ts[3]), LAMBDA om : OkV(QuotR(P2, om)))))
IsField(R) == CASE R.k \in {"q", "frac"} -> TRUE
                [] R.k = "zm" -> IsPrime(R.m)
                [] R.k = "quot" -> Irred(R.c, R.m)
                [] OTHER -> FALSE
\* the polynomial ring in which residues live, and the modulus
LowR(R) == IF R.k = "zm" THEN Z ELSE R.c
Field2(R) == IF R.k = "zm" THEN R ELSE CoefRing(R.c)

\* ---- outcomes --------------------------------------------------------------
NLs(t) == Cardinality({ i \in DOMAIN t : t[i] = NL })
TooLong == -99
Clean(e) == e.rc = 0 /\ e.err = 0
Refused(e, n) == e.rc \in {0, 1} /\ e.err = 1 /\ (NLs(e.out) < n \/ e.out = <<>>)
Complete(t) == t = <<>> \/ t[Len(t)] = NL
OutLines(e) == LET ls == SplitBy(e.out, NL) IN SubSeq(ls, 1, Len(ls) - 1)
Rest(ts, n) == SubSeq(ts, n + 1, Len(ts))
WithRing(e, fam, ts, Body(_, _)) ==
  IF Len(ts) < Arity(fam) THEN Refused(e, 1)
  ELSE LET r == RingOfArgs(fam, ts)
       IN IF r.s = "open" THEN TRUE ELSE IF r.s = "bad" THEN Refused(e, 1) ELSE Body(r.v, Rest(ts, Arity(fam)))

\* "a: result", "a = result" or just "result"
COLONSP == <<58, SPACE>>
EQSP == <<SPACE, 61, SPACE>>
FindSep(t, sep) == { i \in 1..(Len(t) - Len(sep) + 1) : SubSeq(t, i, i + Len(sep) - 1) = sep }
SameValue(R, t, v) == LET p == IF R.k = "z" THEN RdInt(t) ELSE Rd(R, t) IN p.s = "ok" /\ Eq(R, p.v, v)
Labelled(R, sep, v, line, P(_)) == LET S == FindSep(line, sep)
                                   IN S # {} /\ LET i == MinOf(S) IN SameValue(R, SubSeq(line, 1, i - 1), v) /\ P(SubSeq(line, i + Len(sep), Len(line)))
AllRead(R, ts) == [i \in DOMAIN ts |-> Rd(R, ts[i])]
Status(rd) == IF \E i \in DOMAIN rd : rd[i].s = "open" THEN "open" ELSE IF \E i \in DOMAIN rd : rd[i].s = "bad" THEN "bad" ELSE "ok"
\* one line for every argument; F says whether a value has a result ("ok"), is refused ("fail") or is left open
Each(e, R, ts, sep, F(_), P(_, _)) ==
  LET rd == AllRead(R, ts)
      st == Status(rd)
  IN IF ts = <<>> THEN e.out = <<>>
     ELSE IF st = "open" THEN TRUE
     ELSE LET f == [i \in DOMAIN ts |-> IF rd[i].s = "bad" THEN "fail" ELSE F(rd[i].v)]
          IN IF \E i \in DOMAIN f : f[i] = "open" THEN TRUE
             ELSE IF \E i \in DOMAIN f : f[i] = "fail" THEN Refused(e, Len(ts))
             ELSE LET ls == OutLines(e)
                  IN /\ Clean(e) /\ Complete(e.out) /\ Len(ls) = Len(ts)
                     /\ \A i \in DOMAIN ts : IF sep = <<>> THEN P(rd[i].v, ls[i]) ELSE Labelled(R, sep, rd[i].v, ls[i], LAMBDA b : P(rd[i].v, b))
Multi(ts, sep) == IF Len(ts) > 1 THEN sep ELSE <<>>
AlwaysOk(v) == "ok"
Need(b) == IF b THEN "ok" ELSE "open"
\* all of the lines together
Says(e, P(_)) == Clean(e) /\ Complete(e.out) /\ P(OutLines(e))
ReadLines(R, ls) == LET rd == AllRead(R, ls) IN IF Status(rd) = "ok" THEN <<TRUE, [i \in DOMAIN rd |-> rd[i].v]>> ELSE <<FALSE>>
LinesAre(e, R, P(_)) == Says(e, LAMBDA ls : LET r == ReadLines(R, ls) IN r[1] /\ P(r[2]))
OutMat(e, R) == ParseRows(R, MBlock(SplitBy(e.out, NL))[1])
ASmall(R, f) == R.k = "z" \/ (Deg(R, f) >= 0 /\ MaxPow(Q(R), Deg(R, f) \div 2, 4096) /\ MaxPow(Q(R), Deg(R, f), 1000000000))
Deg0(R, a) == IF Deg(R, a) < 0 THEN 0 ELSE Deg(R, a)
RZero(R, a) == IF R.k = "z" THEN a = 0 ELSE IsZero(R, a)
RGcd(R, a, b) == IF R.k = "z" THEN IGcd(a, b) ELSE PGcd(R, a, b)
RSame(R, a, b) == IF R.k = "z" THEN a = b ELSE Assoc(R, a, b)
RAdd(R, a, b) == IF R.k = "z" THEN a + b ELSE Add(R, a, b)

\* ---- actions ----------------------------------------------------------------
\* "g = r * a + s * b"
BezoutOk(R, a, b, line) ==
  LET w == Words(line)
      v == [i \in DOMAIN w |-> Rd(R, w[i])]
  IN /\ Len(w) = 9 /\ w[2] = <<61>> /\ w[4] = <<42>> /\ w[6] = <<43>> /\ w[8] = <<42>>
     /\ \A i \in {1, 3, 5, 7, 9} : v[i].s = "ok"
     /\ v[5].v = a /\ v[9].v = b /\ RSame(R, v[1].v, RGcd(R, a, b))
     /\ v[1].v = RAdd(R, RMul(R, v[3].v, a), RMul(R, v[7].v, b))
IntSmall(R, vs, cap) == R.k # "z" \/ \A i \in DOMAIN vs : Abs(vs[i]) <= cap
Gcd(e, fam, a, v) ==
  LET ext == Len(a) >= 1 /\ a[1] = "-e"
      ts == IF ext THEN Tail(v) ELSE v
  IN WithRing(e, fam, ts, LAMBDA R, rest :
       LET rd == AllRead(R, rest) st == Status(rd) vs == [i \in DOMAIN rd |-> rd[i].v]
       IN IF rest = <<>> \/ (ext /\ Len(rest) # 2) THEN Refused(e, 1)
          ELSE IF ~ext /\ fam \in {"fp_p", "f2n_p", "fpn_p"} /\ Len(rest) # 2 THEN TRUE
          ELSE IF st = "open" THEN TRUE ELSE IF st = "bad" THEN Refused(e, 1)
          ELSE IF ~IntSmall(R, vs, 30000) THEN TRUE
          ELSE IF ext THEN Says(e, LAMBDA ls : Len(ls) = 1 /\ BezoutOk(R, vs[1], vs[2], ls[1]))
          ELSE LET g == FoldLeft(LAMBDA acc, x : RGcd(R, acc, x), vs[1], Tail(vs))
               IN LinesAre(e, R, LAMBDA r : Len(r) = 1 /\ (IF Len(vs) = 1 /\ R.k = "z" THEN Abs(r[1]) = Abs(g) ELSE RSame(R, r[1], g))))
Lcm(e, fam, v) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    LET rd == AllRead(R, rest) st == Status(rd) vs == [i \in DOMAIN rd |-> rd[i].v]
        l2(a, b) == IF R.k = "z" THEN (Abs(a) \div IGcd(a, b)) * Abs(b) ELSE DivMod(R, Mul(R, a, b), PGcd(R, a, b))[1]
        l == FoldLeft(LAMBDA acc, x : l2(acc, x), vs[1], Tail(vs))
    IN IF rest = <<>> THEN Refused(e, 1)
       ELSE IF st = "open" THEN TRUE ELSE IF st = "bad" THEN Refused(e, 1)
       ELSE IF (\E i \in DOMAIN vs : RZero(R, vs[i])) \/ Len(vs) > 3 \/ ~IntSmall(R, vs, 1000) THEN TRUE
       ELSE LinesAre(e, R, LAMBDA r : Len(r) = 1 /\ (IF R.k = "z" THEN Abs(r[1]) = Abs(l) ELSE Assoc(R, r[1], l))))

\* words "f" or "f^e" whose product is a
FactorText(R, a, t) ==
  LET w == Words(t)
      part(x) == LET c == SplitBy(x, 94) IN <<Rd(R, c[1]), IF Len(c) = 1 THEN OkV(1) ELSE RdInt(c[2]), Len(c)>>
      fs == [i \in DOMAIN w |-> part(w[i])]
      vs == [i \in DOMAIN fs |-> <<fs[i][1].v, fs[i][2].v>>]
      unit(x) == IF R.k = "z" THEN x \in {1, -1} ELSE Deg(R, x) = 0
      lead == IF vs # <<>> /\ unit(vs[1][1]) THEN <<vs[1]>> ELSE <<>>
      primes == Rest(vs, Len(lead))
  IN /\ w # <<>>
     /\ \A i \in DOMAIN fs : fs[i][1].s = "ok" /\ fs[i][2].s = "ok" /\ fs[i][3] <= 2 /\ fs[i][2].v >= 1
     /\ \A i \in DOMAIN primes : RIrred(R, primes[i][1])
     /\ Ascending(R, [i \in DOMAIN primes |-> primes[i][1]])
     /\ FoldLeft(LAMBDA acc, p : RMul(R, acc, RPow(R, p[1], p[2])), IF R.k = "z" THEN 1 ELSE One(R), vs) = a
ListText(R, t) == ReadLines(R, Words(t))
DivisorsText(R, a, t) ==
  LET B == Bag(R, NoFs, a) r == ListText(R, t)
  IN r[1] /\ Ascending(R, r[2]) /\ Len(r[2]) = NumDivisors(B)
     /\ \A i \in DOMAIN r[2] : RDivides(R, r[2][i], a) /\ (IF R.k = "z" THEN r[2][i] > 0 ELSE MonicP(R, r[2][i]))
NoneText == <<40, 110, 111, 110, 101, 41>>
MaxDivisorsText(R, a, t) ==
  LET B == Bag(R, NoFs, a) r == ListText(R, t)
  IN IF DOMAIN B = {} THEN t = NoneText
     ELSE r[1] /\ Ascending(R, r[2]) /\ Len(r[2]) = Cardinality(DOMAIN B)
          /\ Range0(r[2]) = { IF R.k = "z" THEN (IF a < 0 THEN -(Abs(a) \div f) ELSE a \div f) ELSE DivMod(R, a, f)[1] : f \in DOMAIN B }
\* (the interface leaves the factorization of zero and of units to the eye)
Interesting(R, a) == IF R.k = "z" THEN Need(a # 0) ELSE Need(Deg(R, a) >= 1 /\ ASmall(R, a))
Divisors(e, fam, a, v) ==
  LET mp == Len(a) >= 1 /\ a[1] = "-mp"
      ts == IF mp THEN Tail(v) ELSE v
  IN WithRing(e, fam, ts, LAMBDA R, rest :
       Each(e, R, rest, Multi(rest, COLONSP), LAMBDA x : Interesting(R, x),
            LAMBDA x, t : IF mp THEN MaxDivisorsText(R, x, t) ELSE DivisorsText(R, x, t)))
PrimeText == <<80, 82, 73, 77, 69>>
NotPrimeText == <<110, 111, 116, 32, 112, 114, 105, 109, 101>>
IrrText(b) == IF b THEN <<73, 82, 82, 69, 68, 85, 67, 73, 66, 76, 69>> ELSE <<114, 101, 100, 117, 99, 105, 98, 108, 101>>
PrimText(b) == IF b THEN <<80, 82, 73, 77, 73, 84, 73, 86, 69>> ELSE <<105, 109, 112, 114, 105, 109, 105, 116, 105, 118, 101>>
PolyPrim(R, f) == Prim(R, f, Phi(R, NoFs, f))
Test(e, fam, a, v) ==
  IF fam = "f2_p"
  THEN IF Len(v) < 2 \/ a[1] \notin {"-i", "-p", "-ip"} THEN Refused(e, 1)
       ELSE Each(e, F2, Tail(v), COLONSP, LAMBDA f : Need(ASmall(F2, f) /\ (a[1] = "-i" \/ Deg(F2, f) >= 1)),
                 LAMBDA f, t : CASE a[1] = "-i" -> t = IrrText(Irred(F2, f))
                                 [] a[1] = "-p" -> t = PrimText(PolyPrim(F2, f))
                                 [] a[1] = "-ip" -> t = IrrText(Irred(F2, f)) \o <<SPACE>> \o PrimText(PolyPrim(F2, f)))
  ELSE WithRing(e, fam, v, LAMBDA R, rest :
         Each(e, R, rest, Multi(rest, COLONSP), LAMBDA f : Need(R.k = "z" \/ ~IsZero(R, f)),
              LAMBDA f, t : IF R.k = "z" THEN t = (IF IsPrime(f) THEN PrimeText ELSE NotPrimeText) ELSE t = IrrText(Irred(R, Monic(R, f)))))
PolysOfDeg(R, d) == { f \in PolysBelow(R, d + 1) : Deg(R, f) = d /\ ~IsZero(R, f) }
PolyList(e, fam, v) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    IF Len(rest) # 1 THEN Refused(e, 1)
    ELSE LET g == RdRange(rest[1])
         IN IF g.s = "open" THEN TRUE ELSE IF g.s = "bad" THEN Refused(e, 1)
            ELSE IF ~MaxPow(Q(R), g.v[2] + 1, 600) THEN TRUE
            ELSE LinesAre(e, R, LAMBDA r : Lists(R, r, UNION { PolysOfDeg(R, d) : d \in g.v[1]..g.v[2] })))
FirstOk(R, n, r, P(_)) == FirstMonic(R, n, r, P)
Find(e, fam, a, v) ==
  LET nf == IF fam = "f2_p" THEN 2 ELSE 1
      kind == IF fam = "f2_p" THEN a[2] ELSE "-i"
      good(R, f) == CASE kind = "-i" -> Irred(R, f)
                      [] kind = "-ip" -> PrimIrr(R, 1, f)
                      [] kind = "-p" -> PrimIrr(R, 0, f)
  IN IF Len(v) < nf \/ a[1] \notin {"-1", "-r"} \/ kind \notin {"-i", "-p", "-ip"} THEN Refused(e, 1)
     ELSE WithRing(e, fam, Rest(v, nf), LAMBDA R, rest :
       IF Len(rest) # 1 THEN Refused(e, 1)
       ELSE LET g == RdRange(rest[1])
            IN IF g.s = "open" THEN TRUE ELSE IF g.s = "bad" THEN Refused(e, 1)
               ELSE IF g.v[1] < 1 THEN Refused(e, g.v[2] - g.v[1] + 1)
               ELSE IF ~MaxPow(Q(R), g.v[2], 5000) THEN TRUE
               ELSE LinesAre(e, R, LAMBDA r :
                      /\ Len(r) = g.v[2] - g.v[1] + 1
                      /\ \A i \in DOMAIN r : LET n == g.v[1] + i - 1
                                            IN IF a[1] = "-1" THEN FirstOk(R, n, r[i], LAMBDA f : good(R, f))
                                               ELSE Deg(R, r[i]) = n /\ MonicP(R, r[i]) /\ good(R, r[i])))
Evaluate(e, fam, v) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    IF Len(rest) < 2 THEN Refused(e, 1)
    ELSE LET f == Rd(R, rest[1])
         IN IF f.s = "open" THEN TRUE ELSE IF f.s = "bad" THEN Refused(e, 1)
            ELSE LET C == CoefRing(R) IN Each(e, C, Tail(rest), <<>>, AlwaysOk, LAMBDA c, t : SameValue(C, t, Eval(R, f.v, c))))
\* random things: only their number and their shape are promised
Count(e, ts, P(_)) == LET n == IF ts = <<>> THEN OkV(1) ELSE RdInt(ts[1])
                      IN IF Len(ts) > 1 THEN Refused(e, 1) ELSE IF n.s = "open" THEN TRUE ELSE IF n.s = "bad" THEN Refused(e, 1)
                         ELSE IF n.v > 200 THEN TRUE
                         ELSE Says(e, LAMBDA ls : Len(ls) = (IF n.v < 0 THEN 0 ELSE n.v) /\ \A i \in DOMAIN ls : P(ls[i]))
Random(e, fam, v) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    IF IsPoly(R) \/ R.k = "frac"
    THEN IF rest = <<>> THEN Refused(e, 1)
         ELSE LET d == RdInt(rest[1])
              IN IF d.s = "bad" THEN Refused(e, 1) ELSE IF d.s = "open" \/ d.v < 0 \/ d.v > 30 THEN (Len(rest) <= 2 \/ Refused(e, 1))
                 ELSE Count(e, Tail(rest), LAMBDA t : LET r == Rd(R, t) IN r.s = "ok" /\ (R.k = "frac" \/ Deg(R, r.v) = d.v))
    ELSE Count(e, rest, LAMBDA t : LET r == Rd(R, t) IN r.s = "ok"))
MatRandom(e, fam, v) ==
  WithRing(e, fam, v, LAMBDA R, rest0 :
    LET rest == IF fam = "f2_pr" THEN Tail(rest0) ELSE rest0
        d == IF fam = "f2_pr" /\ rest0 # <<>> THEN RdInt(rest0[1]) ELSE OkV(1)
    IN IF (fam = "f2_pr" /\ Len(rest0) # 3) \/ (fam # "f2_pr" /\ Len(rest) # 2) THEN Refused(e, 1)
       ELSE LET m == RdInt(rest[1]) n == RdInt(rest[2])
            IN IF "open" \in {m.s, n.s, d.s} THEN TRUE ELSE IF "bad" \in {m.s, n.s, d.s} THEN Refused(e, 1)
               ELSE IF m.v \notin 1..12 \/ n.v \notin 1..12 \/ d.v \notin 0..12 THEN TRUE
               ELSE Clean(e) /\ LET p == OutMat(e, R) IN p.ok /\ NR(p.v) = m.v /\ NC(p.v) = n.v)
Companion(e, fam, v) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    IF Len(rest) # 1 THEN Refused(e, 1)
    ELSE LET f == Rd(R, rest[1])
         IN IF f.s = "open" THEN TRUE ELSE IF f.s = "bad" THEN Refused(e, 1)
            ELSE IF Deg(R, f.v) \notin 1..5 \/ ~MonicP(R, f.v) THEN TRUE
            ELSE Clean(e) /\ LET p == OutMat(e, CoefRing(R)) IN p.ok /\ CompanionOk(R, f.v, p.v))
QPolys(e, fam, v) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    LET p == Char(CoefRing(R)) QR == PolyRing(QQ)
    IN IF rest = <<>> THEN Refused(e, 1)
       ELSE Each(e, QR, rest, <<>>, LAMBDA f : IF \A i \in DOMAIN f : RatOk(f[i], p) THEN "ok" ELSE "fail",
                 LAMBDA f, t : SameValue(R, t, IntoRing(R, [i \in DOMAIN f |-> RatTo(f[i], p)]))))
Cyclotomic(e, v) ==
  IF v = <<>> THEN Refused(e, 1)
  ELSE Each(e, Z, v, <<>>, LAMBDA n : IF n < 1 THEN "fail" ELSE Need(n <= 200),
            LAMBDA n, t : LET p == ParseText(PolyRing(QQ), t) IN p.ok /\ p.v = ([i \in 1..(EulerPhi(n) + 1) |-> <<Cyc(n)[i], 1>>]))
TotientOf(e, fam, v) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    Each(e, R, rest, Multi(rest, COLONSP), LAMBDA x : IF R.k = "z" THEN Need(x >= 2) ELSE Need(Deg(R, x) >= 1 /\ ASmall(R, x)),
         LAMBDA x, t : t = DecText(Phi(R, NoFs, x))))
Period(e, v) ==
  Each(e, F2, v, Multi(v, COLONSP), LAMBDA m : Need(Deg(F2, m) \in 1..16),
       LAMBDA m, t : LET r == RdInt(t) IN r.s = "ok" /\ (IF UnitIn(F2, m, X(F2)) THEN IsOrder(F2, m, RedIn(F2, X(F2), m), r.v) ELSE r.v = 0))
Primes == SelectSeq([i \in 1..800 |-> i], IsPrime)
NthPrime(e, v) ==
  LET g == [i \in DOMAIN v |-> RdRange(v[i])] st == Status(g)
      bound == \A i \in DOMAIN v : g[i].s = "ok" => (g[i].v[1] >= 1 /\ g[i].v[2] <= 139)
  IN IF v = <<>> THEN Refused(e, 1)
     ELSE IF st = "open" \/ ~bound THEN TRUE ELSE IF st = "bad" THEN e.rc = 1 /\ e.err = 1
     ELSE LinesAre(e, Z, LAMBDA r : r = FoldLeft(LAMBDA acc, h : acc \o SubSeq(Primes, h.v[1], h.v[2]), <<>>, g))
IntRange(e, v) ==
  LET rd == AllRead(Z, v) st == Status(rd)
      x == rd[1].v reps == IF Len(v) >= 2 THEN rd[2].v ELSE 1 stride == IF Len(v) >= 3 THEN rd[3].v ELSE 1
  IN IF Len(v) \notin 1..3 THEN Refused(e, 1)
     ELSE IF st = "open" THEN TRUE ELSE IF st = "bad" THEN Refused(e, 1)
     ELSE IF reps > 300 \/ Abs(x) > 1000000 \/ Abs(stride) > 1000000 THEN TRUE
     ELSE LinesAre(e, Z, LAMBDA r : r = [i \in 1..(IF reps > 0 THEN reps ELSE 0) |-> x + (i - 1) * stride])

\* ---- residues ---------------------------------------------------------------
AllOf(R) == IF R.k = "zm" THEN 0..(R.m - 1) ELSE Elements(R)
FewEls(R, cap) == IF R.k = "zm" THEN R.m <= cap ELSE MaxPow(Q(R.c), Deg(R.c, R.m), cap)
UnitOf(R, x) == IF R.k = "zm" THEN IGcd(x, R.m) = 1 ELSE UnitIn(R.c, R.m, x)
Units(R) == { x \in AllOf(R) : UnitOf(R, x) }
Sorted(R, S) == SetToSortSeq(S, LAMBDA x, y : Less(R, x, y))
ResList(e, fam, a, v) ==
  LET flag == IF Len(a) >= 1 THEN a[1] ELSE ""
      plain == flag \in {"-a", "-u", "-nu"} /\ Len(v) = 1 + Arity(fam)
      withg == fam \in {"f2_pm", "fp"} /\ flag \in {"-m", "-rp"} /\ Len(v) = 3
  IN IF ~plain /\ ~withg THEN Refused(e, 1)
     ELSE WithRing(e, fam, Rest(v, IF plain THEN 1 ELSE 2), LAMBDA R, rest :
       IF ~FewEls(R, 600) THEN TRUE
       ELSE IF plain
       THEN LinesAre(e, R, LAMBDA r : /\ Lists(R, r, CASE flag = "-a" -> AllOf(R) [] flag = "-u" -> Units(R) [] flag = "-nu" -> AllOf(R) \ Units(R)))
       ELSE LET g == Rd(R, v[2])
            IN IF g.s = "open" THEN TRUE ELSE IF g.s = "bad" THEN Refused(e, 1)
               ELSE LET h == RGcd(LowR(R), g.v, R.m)
                    IN LinesAre(e, R, LAMBDA r : Lists(R, r, IF flag = "-m" THEN { Mul(R, x, g.v) : x \in AllOf(R) }
                                                             ELSE { x \in AllOf(R) : UnitIn(LowR(R), h, x) })))
IsOrderIn(R, x, r) == IsOrder(LowR(R), R.m, x, r)
Order(e, fam, v, one) ==
  IF one /\ Len(v) # Arity(fam) + 1 THEN Refused(e, 1)
  ELSE WithRing(e, fam, v, LAMBDA R, rest :
    IF rest = <<>> THEN Refused(e, 1)
    ELSE Each(e, R, rest, Multi(rest, COLONSP), LAMBDA x : IF ~FewEls(R, 1000000) THEN "open" ELSE IF UnitOf(R, x) \/ one THEN "ok" ELSE "fail",
              LAMBDA x, t : LET r == RdInt(t) IN r.s = "ok" /\ IF UnitOf(R, x) THEN IsOrderIn(R, x, r.v) ELSE r.v = 0))
NoGenText == <<71, 101, 110, 101, 114, 97, 116, 111, 114, 32, 110, 111, 116, 32, 102, 111, 117, 110, 100, 46>>
PhiOf(R) == Phi(LowR(R), NoFs, IF R.k = "zm" THEN R.m ELSE Monic(R.c, R.m))
Generates(R, g) == HasFullOrder(LowR(R), R.m, g, PhiOf(R))
HasGen(R) == \E g \in AllOf(R) : Generates(R, g)
FindGen(e, fam, v) ==
  LET low == CASE fam = "fp" -> "z" [] fam = "f2_pm" -> "f2_p" [] fam = "f2n_pm" -> "f2n_p"
  IN WithRing(e, low, v, LAMBDA R, rest :
       LET of(m) == IF R.k = "z" THEN ZmRing(m) ELSE QuotR(R, m)
           ok(m) == IF R.k = "z" THEN m \in 2..100000 ELSE Deg(R, m) >= 1 /\ ASmall(R, m) /\ FewEls(of(m), 5000)
       IN IF rest = <<>> THEN Refused(e, 1)
          ELSE Each(e, R, rest, Multi(rest, COLONSP), LAMBDA m : Need(ok(m)),
                    LAMBDA m, t : IF t = NoGenText THEN ~FewEls(of(m), 3000) \/ ~HasGen(of(m))
                                  ELSE LET g == Rd(of(m), t) IN g.s = "ok" /\ Generates(of(m), g.v)))
LogOf(e, fam, v) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    IF Len(rest) < 2 THEN Refused(e, 1)
    ELSE LET g == Rd(R, rest[1])
         IN IF g.s = "open" \/ ~FewEls(R, 5000) THEN TRUE ELSE IF g.s = "bad" THEN Refused(e, Len(rest) - 1)
            ELSE LET G == IF UnitOf(R, g.v) THEN Generated(LowR(R), R.m, g.v) ELSE {}
                 IN Each(e, R, Tail(rest), Multi(Tail(rest), COLONSP), LAMBDA x : IF x \in G THEN "ok" ELSE "fail",
                         LAMBDA x, t : LET r == RdInt(t) IN r.s = "ok" /\ r.v >= 0 /\ Pow(R, g.v, r.v) = x))
LogHead == <<<<101, 108, 101, 109, 101, 110, 116, 32, 112, 111, 119, 101, 114>>, <<45, 45, 45, 45, 45, 45, 45, 32, 45, 45, 45, 45, 45>>>>
AlogHead == <<<<112, 111, 119, 101, 114, 32, 101, 108, 101, 109, 101, 110, 116>>, <<45, 45, 45, 45, 45, 32, 45, 45, 45, 45, 45, 45, 45>>>>
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
PowTable(e, R, g, alog) ==
  LET us == Sorted(R, Units(R)) n == Len(us)
      row(l) == Words(l)
      num(w) == RdInt(w)
  IN IF ~alog /\ ~Generates(R, g) THEN Refused(e, 2 + n)
     ELSE Says(e, LAMBDA ls :
            /\ Len(ls) = n + 2 /\ SubSeq(ls, 1, 2) = (IF alog THEN AlogHead ELSE LogHead)
            /\ \A i \in 1..n :
                 LET w == row(ls[i + 2])
                 IN /\ Len(w) = 2
                    /\ IF alog THEN w[1] = DecText(i - 1) /\ SameValue(R, w[2], Pow(R, g, i - 1))
                       ELSE SameValue(R, w[1], us[i]) /\ num(w[2]).s = "ok" /\ num(w[2]).v >= 0 /\ Pow(R, g, num(w[2]).v) = us[i])
Table(e, fam, a, v) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    LET o == a[Len(a)] c == v[Len(v)]
        bin(x, y) == CASE o = "+" -> Add(R, x, y) [] o = "-" -> Sub(R, x, y) [] o \in {"*", ".", "u*", "u."} -> Mul(R, x, y)
                       [] o = "/" -> Mul(R, x, Inv(R, y))
        isLog == StartsWith(c, <<108, 111, 103>>) isAlog == StartsWith(c, <<97, 108, 111, 103>>)
        k == IF isLog THEN 3 ELSE 4
        gt == SubSeq(c, k + 2, Len(c))
    IN IF Len(rest) # 1 THEN Refused(e, 1)
       ELSE IF ~FewEls(R, 40) THEN TRUE
       ELSE IF o \in {"+", "-", "*", ".", "u*", "u.", "/"}
       THEN LET s == Sorted(R, IF o \in {"+", "-", "*", "."} THEN AllOf(R) ELSE Units(R))
            IN Clean(e) /\ LET p == OutMat(e, R) IN p.ok /\ p.v = [i \in DOMAIN s |-> [j \in DOMAIN s |-> bin(s[i], s[j])]]
       ELSE IF ~(isLog \/ isAlog) THEN Refused(e, 1)
       ELSE IF fam = "fp_pm" THEN Refused(e, 1)
       ELSE IF Len(c) = k
       THEN IF ~HasGen(R) THEN Refused(e, 3)
            ELSE \E g \in { x \in AllOf(R) : Generates(R, x) } : PowTable(e, R, g, isAlog)
       ELSE IF c[k + 1] # 58 THEN Refused(e, 1)
       ELSE LET g == Rd(R, gt)
            IN IF g.s = "open" THEN TRUE ELSE IF g.s = "bad" THEN Refused(e, 1) ELSE IF isAlog /\ ~UnitOf(R, g.v) THEN TRUE ELSE PowTable(e, R, g.v, isAlog))
\* minimal and characteristic polynomials of elements of a field
ElPoly(e, fam, v, min) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    IF rest = <<>> THEN e.out = <<>>
    ELSE IF ~IsField(R) \/ Deg(R.c, R.m) > 5 THEN TRUE
    ELSE Each(e, R, rest, Multi(rest, COLONSP), AlwaysOk,
              LAMBDA x, t : LET f == Rd(R.c, t)
                            IN f.s = "ok" /\ (IF min THEN MinPolyIs(R.c, R.m, x, f.v)
                                              ELSE f.v = CharPoly(R.c, MulMatrix(R.c, R.m, x)))))
Convert(e, v) ==
  IF Len(v) < 2 THEN Refused(e, 1)
  ELSE LET m1 == Rd(F2, v[1]) m2 == Rd(F2, v[2]) rest == Rest(v, 2)
       IN IF m1.s = "open" \/ m2.s = "open" THEN TRUE
          ELSE IF m1.s = "bad" \/ m2.s = "bad" THEN Refused(e, 1)
          ELSE IF Deg(F2, m1.v) \notin 1..8 \/ Deg(F2, m2.v) \notin 1..8 \/ ~Irred(F2, m1.v) \/ ~Irred(F2, m2.v) THEN TRUE
          ELSE LET K1 == QuotR(F2, m1.v) K2 == QuotR(F2, m2.v) rd == AllRead(K1, rest) st == Status(rd) n == Len(rest)
               IN IF rest = <<>> THEN e.out = <<>>
                  ELSE IF st = "open" THEN TRUE
                  ELSE IF st = "bad" \/ Deg(F2, m2.v) % Deg(F2, m1.v) # 0 THEN Refused(e, n)
                  ELSE Says(e, LAMBDA ls :
                         Len(ls) = n /\ \E t \in { b \in Elements(K2) : IsZero(K2, MapAt(K2, b, m1.v)) } :
                           \A i \in 1..n : LET ok(s) == SameValue(K2, s, MapAt(K2, t, rd[i].v))
                                           IN IF n = 1 THEN ok(ls[i]) ELSE Labelled(K1, COLONSP, rd[i].v, ls[i], ok))
MaxOrder(e, v) ==
  WithRing(e, "fp", v, LAMBDA R, rest :
    IF rest # <<>> THEN Refused(e, 1) ELSE IF R.m > 400 THEN TRUE
    ELSE LinesAre(e, Z, LAMBDA r : Len(r) = 1 /\ r[1] = MaxOf({ Cardinality(Generated(Z, R.m, x)) : x \in Units(R) })))
Orbit(e, v) ==
  LET rd == AllRead(Z, v) st == Status(rd)
  IN IF Len(v) \notin {2, 3} THEN Refused(e, 1)
     ELSE IF st = "open" THEN TRUE ELSE IF st = "bad" THEN Refused(e, 1)
     ELSE LET p == rd[1].v x == rd[2].v y == IF Len(v) = 3 THEN rd[3].v ELSE 1
          IN IF p < 1 THEN Refused(e, 1) ELSE IF p \notin 2..2000 \/ Abs(x) > 1000000 \/ Abs(y) > 1000000 THEN TRUE
             ELSE IF IGcd(x, p) # 1 THEN Refused(e, 1)
             ELSE IF x < 0 \/ y < 0 THEN TRUE
             ELSE LinesAre(e, Z, LAMBDA r : Len(r) = Cardinality(Generated(Z, p, x % p))
                                            /\ \A i \in DOMAIN r : r[i] = (PowModI(x % p, i, p) * (y % p)) % p)

\* ---- matrices ---------------------------------------------------------------
FileText(e, name) == LET F == { i \in DOMAIN e.files : e.files[i][1] = name }
                     IN IF F = {} THEN <<FALSE>> ELSE <<TRUE, e.files[CHOOSE i \in F : TRUE][2]>>
\* a readable matrix, an unreadable one, or no promise
RdMat(R, f) == IF ~f[1] THEN BadV
               ELSE LET p == ParseRows(R, MBlock(Lines(f[2]))[1]) IN IF p.ok THEN OkV(p.v) ELSE OpenV
MatCharPoly(e, fam, v) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    IF Len(rest) # 1 THEN Refused(e, 1)
    ELSE LET A == RdMat(R, FileText(e, rest[1])) P == IF fam = "f2" THEN F2 ELSE PolyRing(R)
         IN IF A.s = "open" THEN TRUE ELSE IF A.s = "bad" \/ ~Square(A.v) THEN Refused(e, 1)
            ELSE IF ~IsField(R) \/ NR(A.v) > 5 THEN TRUE
            ELSE LinesAre(e, P, LAMBDA r : Len(r) = 1 /\ r[1] = CharPoly(P, A.v)))
DiagText == <<68, 105, 97, 103, 111, 110, 97, 108, 105, 122, 97, 98, 108, 101, 46>>
NonDiagText == <<78, 111, 110, 45, 100>> \o Tail(DiagText)
MatDiag(e, fam, v) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    IF Len(rest) # 1 THEN Refused(e, 1)
    ELSE LET A == RdMat(R, FileText(e, rest[1])) P == PolyRing(R)
         IN IF A.s = "open" THEN TRUE ELSE IF A.s = "bad" THEN Refused(e, 1)
            ELSE IF ~Square(A.v) THEN e.rc \in {0, 1} /\ e.err = 1 /\ Range0(OutLines(e)) \cap {DiagText, NonDiagText} = {}
            ELSE IF ~IsField(R) \/ ~FewEls(R, 8) \/ NR(A.v) > 3 THEN TRUE
            ELSE LET yes == Diagonalizable(P, Radical(P, SpecFactors(P, CharPoly(P, A.v))), A.v)
                     said == Range0(OutLines(e))
                     D == DiagText N == NonDiagText
                 IN e.rc = 0 /\ (IF yes THEN D \in said /\ N \notin said ELSE N \in said /\ D \notin said))
MatOrder(e, fam, v) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    IF Len(rest) = 1 /\ fam = "fp_pm" THEN TRUE
    ELSE IF rest # <<>> THEN Refused(e, 1)
    ELSE LET A == RdMat(R, <<TRUE, e.in>>)
         IN IF A.s = "open" THEN TRUE ELSE IF A.s = "bad" THEN Refused(e, 1)
            ELSE IF ~Square(A.v) THEN Refused(e, 1)
            ELSE IF ~IsField(R) \/ NR(A.v) > 5 THEN TRUE
            ELSE LinesAre(e, Z, LAMBDA r :
                   Len(r) = 1 /\ IF ~Invertible(R, A.v) THEN r[1] = 0
                                 ELSE LET I == Ident(R, NR(A.v)) k == r[1]
                                      IN k >= 1 /\ MPow(R, A.v, k) = I /\ \A p \in PrimeDivs(k) : MPow(R, A.v, k \div p) # I))
MatSolve(e, fam, v) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    IF Len(rest) # 2 THEN Refused(e, 1)
    ELSE LET A == RdMat(R, FileText(e, rest[1])) b == RdMat(R, FileText(e, rest[2]))
         IN IF "open" \in {A.s, b.s} THEN TRUE ELSE IF "bad" \in {A.s, b.s} THEN Refused(e, 1)
            ELSE IF NR(b.v) # 1 \/ ~IsField(R) THEN TRUE
            ELSE IF NC(b.v) # NR(A.v) THEN Refused(e, 1)
            ELSE LET y == b.v[1] r == Rank(R, A.v)
                     aug == [i \in DOMAIN A.v |-> Append(A.v[i], y[i])]
                 IN IF r = NC(A.v) /\ Rank(R, aug) = r
                    THEN Says(e, LAMBDA ls : Len(ls) = 1 /\ LET x == ListText(R, ls[1])
                                                            IN x[1] /\ Len(x[2]) = NC(A.v) /\ MVec(R, A.v, x[2]) = y)
                    ELSE Refused(e, 1))

\* ---- calculators -------------------------------------------------------------
Calculate(e, fam, v, K) ==
  WithRing(e, fam, v, LAMBDA R, rest :
    IF rest = <<>> THEN e.out = <<>>
    ELSE (e.rc \in {0, 1} \/ e.out = <<>>) /\ Accept([R |-> R, K |-> K, fld |-> IsField(R), files |-> e.files], rest, e.err = 1, e.out))

Act(e) ==
  LET c == Entry(e.a[1]) fam == c[2] w == c[3] a == Tail(e.a) v == Tail(e.v)
  IN CASE w = "op" -> Calculate(e, fam, v, "el")
       [] w = "vec_op" -> Calculate(e, fam, v, "vec")
       [] w = "mat_op" -> Calculate(e, fam, v, "mat")
       [] w = "gcd" -> Gcd(e, fam, a, v)
       [] w = "lcm" -> Lcm(e, fam, v)
       [] w = "deg" -> WithRing(e, fam, v, LAMBDA R, rest : Each(e, R, rest, Multi(rest, COLONSP), AlwaysOk, LAMBDA f, t : t = DecText(Deg0(R, f))))
       [] w = "totient" -> TotientOf(e, fam, v)
       [] w = "test" -> Test(e, fam, a, v)
       [] w = "factor" -> WithRing(e, fam, v, LAMBDA R, rest :
                            Each(e, R, rest, Multi(rest, EQSP), LAMBDA x : Interesting(R, x), LAMBDA x, t : FactorText(R, x, t)))
       [] w = "divisors" -> Divisors(e, fam, a, v)
       [] w = "find" -> Find(e, fam, a, v)
       [] w = "eval" -> Evaluate(e, fam, v)
       [] w = "random" -> Random(e, fam, v)
       [] w = "mat_random" -> MatRandom(e, fam, v)
       [] w = "comp_mx" -> Companion(e, fam, v)
       [] w = "qp" -> QPolys(e, fam, v)
       [] w = "cyclo" -> Cyclotomic(e, v)
       [] w = "period" -> Period(e, v)
       [] w = "nth" -> NthPrime(e, v)
       [] w = "range" -> IntRange(e, v)
       [] w = "list" -> IF fam \in {"f2_p", "f2n_p", "fp_p"} THEN PolyList(e, fam, v) ELSE ResList(e, fam, a, v)
       [] w = "tbl" -> Table(e, fam, a, v)
       [] w = "ord" -> Order(e, fam, v, FALSE)
       [] w = "ord1" -> Order(e, fam, v, TRUE)
       [] w = "find_gen" -> FindGen(e, fam, v)
       [] w = "log" -> LogOf(e, fam, v)
       [] w = "ch_pol" -> ElPoly(e, fam, v, FALSE)
       [] w = "min_pol" -> ElPoly(e, fam, v, TRUE)
       [] w = "convert" -> Convert(e, v)
       [] w = "max_ord" -> MaxOrder(e, v)
       [] w = "orbit" -> Orbit(e, v)
       [] w = "mat_ch_pol" -> MatCharPoly(e, fam, v)
       [] w = "mat_diag" -> MatDiag(e, fam, v)
       [] w = "mat_ord" -> MatOrder(e, fam, v)
       [] w = "mat_solve" -> MatSolve(e, fam, v)

\* ---- { } : the innermost call's words take its place ---------------------------
OPEN == <<123>>
CLOSE == <<125>>
HasNest(v) == \E i \in DOMAIN v : v[i] = CLOSE /\ \E j \in 1..i : v[j] = OPEN
NestAt(v) == LET i == MinOf({ k \in DOMAIN v : v[k] = CLOSE /\ \E j \in 1..k : v[j] = OPEN })
             IN <<MaxOf({ j \in 1..i : v[j] = OPEN }), i>>
InnerOf(v) == SubSeq(v, NestAt(v)[1] + 1, NestAt(v)[2] - 1)
Substitute(v, out) == SubSeq(v, 1, NestAt(v)[1] - 1) \o Words(out) \o Rest(v, NestAt(v)[2])
\* runs: the flat calls <<arguments, output>> in the order they are made, the last one being the outermost
RECURSIVE NestOk(_, _)
NestOk(v, runs) ==
  IF ~HasNest(v) THEN Len(runs) = 1 /\ runs[1][1] = v
  ELSE runs # <<>> /\ runs[1][1] = InnerOf(v) /\ NestOk(Substitute(v, runs[1][2]), Tail(runs))

\* brackets that do not pair up
RECURSIVE BadNest(_, _)
BadNest(v, d) == IF v = <<>> THEN d # 0
                 ELSE IF v[1] = CLOSE THEN d = 0 \/ BadNest(Tail(v), d - 1)
                 ELSE BadNest(Tail(v), IF v[1] = OPEN THEN d + 1 ELSE d)
Unbalanced(v) == BadNest(v, 0)

\* ---- the program -------------------------------------------------------------
SpiffPermit(e) ==
  CASE e.op = "cli" ->
         \* a run too long to wait for is acceptable only where nothing is promised
         /\ e.rc \in {0, 1, TooLong}
         /\ IF e.a = <<>> \/ Unbalanced(e.v) THEN Refused(e, 1) /\ e.out = <<>>
            ELSE IF e.a[1] = "-l" THEN TRUE
            ELSE IF e.a[1] \in Names THEN Act(e)
            ELSE Refused(e, 1) /\ e.out = <<>>
    [] e.op = "listing" -> e.rc = 0 /\ Range0(e.names) = Names /\ Len(e.names) = Cardinality(Names)
    [] e.op = "nest" -> IF Unbalanced(e.v) THEN Refused(e, 1) /\ e.out = <<>> ELSE e.rc \in {0, 1} /\ NestOk(e.v, e.runs) /\ e.out = e.runs[Len(e.runs)][2]
    [] OTHER -> FALSE
=============================================================================
