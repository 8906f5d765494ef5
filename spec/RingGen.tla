------------------------------ MODULE RingGen ------------------------------
(***************************************************************************)
(* Exhaustive small-scope exploration of the register machine.             *)
(*                                                                         *)
(* Enumerates every pair of elements of small instances of one kind of     *)
(* ring (environment variable KIND), checks on every one of them the laws  *)
(* that make the definitions of Algebra.tla the mathematics they claim to  *)
(* be, and emits for every pair a session of calls to be replayed in the   *)
(* real library.  The walk specification instead generates random long     *)
(* behaviours of the machine over the same rings.                          *)
(***************************************************************************)
EXTENDS RingMachine, Json, IOUtils, Randomization

Kind == IOEnv.KIND
Big  == IOEnv.SIZE = "big"

Zm(m) == ZmRing(m)
Quot(c, m) == [k |-> "quot", c |-> c, m |-> m]
Frac(c) == [k |-> "frac", c |-> c]
F4  == Quot(F2PolyRing, {0, 1, 2})
F8  == Quot(F2PolyRing, {0, 1, 3})
F9  == Quot(PolyRing(Zm(3)), <<1, 0, 1>>)
F4p == Quot(PolyRing(Zm(2)), <<1, 1, 1>>)
Rats(n) == { QNorm(a, b) : a \in (-n)..n, b \in 1..n }
Fracs(P, n) == { <<a, b>> : a \in PolysBelow(P, n), b \in { x \in PolysBelow(P, n) : ~IsZero(P, x) } }
LowFracs(P, n) == { f \in Fracs(P, n) : Deg(P, PGcd(P, f[1], f[2])) = 0 }

\* instances: <<ring, set of elements>>
Scope ==
  CASE Kind = "im"  -> [i \in 1..(IF Big THEN 24 ELSE 13) |-> LET R == Zm(i) IN <<R, Elements(R)>>]
    [] Kind = "bit" -> << <<Zm(2), {0, 1}>> >>
    [] Kind = "q"   -> << <<[k |-> "q"], Rats(IF Big THEN 5 ELSE 3)>> >>
    [] Kind = "f2p" -> << <<F2PolyRing, PolysBelow(F2PolyRing, IF Big THEN 6 ELSE 5)>> >>
    [] Kind = "fpp" -> << <<PolyRing(Zm(2)), PolysBelow(PolyRing(Zm(2)), IF Big THEN 5 ELSE 4)>>,
                          <<PolyRing(Zm(3)), PolysBelow(PolyRing(Zm(3)), 3)>>,
                          <<PolyRing(Zm(5)), PolysBelow(PolyRing(Zm(5)), 2)>> >>
    [] Kind = "qp"  -> << <<PolyRing([k |-> "q"]), { PNorm([k |-> "q"], <<a, b>>) :
                             a, b \in { <<0, 1>>, <<1, 1>>, <<-1, 1>>, <<1, 2>>, <<2, 1>>} }>> >>
    [] Kind = "f2np" -> << <<PolyRing(F4), PolysBelow(PolyRing(F4), IF Big THEN 3 ELSE 2)>>,
                           <<PolyRing(F8), PolysBelow(PolyRing(F8), IF Big THEN 2 ELSE 1)>> >>
    [] Kind = "fpnp" -> << <<PolyRing(F4p), PolysBelow(PolyRing(F4p), IF Big THEN 3 ELSE 2)>>,
                           <<PolyRing(F9), PolysBelow(PolyRing(F9), IF Big THEN 2 ELSE 1)>> >>
    [] Kind = "f2pm" -> << <<F8, Elements(F8)>>,
                           <<Quot(F2PolyRing, {4}), PolysBelow(F2PolyRing, 4)>>,
                           <<Quot(F2PolyRing, {0, 2, 4}), PolysBelow(F2PolyRing, 4)>>,
                           <<Quot(F2PolyRing, {0, 1}), PolysBelow(F2PolyRing, 1)>> >>
    [] Kind = "fppm" -> LET S(p, m) == LET R == Quot(PolyRing(Zm(p)), m) IN <<R, Elements(R)>>
                        IN << S(2, <<1, 0, 1>>), S(3, <<1, 0, 1>>), S(3, <<0, 2, 2>>), S(5, <<1, 3>>),
                              S(5, <<2, 0, 1>>) >>
    [] Kind = "f2npm" -> LET S(c, m) == LET R == Quot(PolyRing(c), m) IN <<R, Elements(R)>>
                         IN << S(F4, <<{1}, {0}, {0}>>), S(F4, <<{}, {1}, {0, 1}>>), S(F4, <<{1}, {1}>>) >>
    [] Kind = "fpnpm" -> LET S(c, m) == LET R == Quot(PolyRing(c), m) IN <<R, Elements(R)>>
                         IN << S(F4p, <<<<0, 1>>, <<1>>, <<1>>>>), S(F4p, <<<<>>, <<1>>, <<1, 1>>>>), S(F9, <<<<1>>, <<0, 1>>>>) >>
    [] Kind = "f2pr" -> << <<Frac(F2PolyRing), LowFracs(F2PolyRing, IF Big THEN 4 ELSE 3)>> >>
    [] Kind = "fppr" -> << <<Frac(PolyRing(Zm(3))),
                            { f \in LowFracs(PolyRing(Zm(3)), 2) :
                                 Lead(PolyRing(Zm(3)), f[2]) = 1 /\ (Big \/ f[2] # <<2, 1>>) }>> >>
    [] Kind = "f2npr" -> << <<Frac(PolyRing(F4)), LowFracs(PolyRing(F4), IF Big THEN 2 ELSE 1)>> >>

\* ---- encoding into the drivers' wire format ------------------------------
RECURSIVE Enc(_, _), EncRing(_)
Enc(R, v) == CASE R.k \in {"z", "zm", "q"} -> v
               [] R.k = "f2p" -> SetToSortSeq(v, <)
               [] R.k = "poly" -> [i \in DOMAIN v |-> Enc(R.c, v[i])]
               [] R.k = "quot" -> Enc(R.c, v)
               [] R.k = "frac" -> <<Enc(R.c, v[1]), Enc(R.c, v[2])>>
EncRing(R) == CASE R.k \in {"z", "q", "f2p", "zm"} -> R
                [] R.k \in {"poly", "frac"} -> [k |-> R.k, c |-> EncRing(R.c)]
                [] R.k = "quot" -> [k |-> "quot", c |-> EncRing(R.c), m |-> Enc(R.c, R.m)]

Op(o, d, a, b) == [op |-> o, d |-> d, a |-> a, b |-> b]
OpN(o, d, a, n) == [op |-> o, d |-> d, a |-> a, b |-> 1, n |-> n]
OpV(o, d, a, v) == [op |-> o, d |-> d, a |-> a, b |-> 1, v |-> v]
FieldOps == <<Op("add", 3, 1, 2), Op("sub", 4, 1, 2), Op("mul", 3, 1, 2), Op("div", 4, 1, 2),
              Op("eqs", 1, 3, 4), Op("neg", 3, 1, 1), Op("isub", 3, 1, 2), Op("iadd", 4, 1, 2),
              Op("imul", 3, 1, 2), Op("mod", 4, 1, 2), Op("idiv", 3, 1, 2),
              OpN("exp", 4, 1, 0), OpN("exp", 4, 1, 3), OpN("exp", 3, 2, -2), Op("asg", 3, 3, 3)>>
RingOps == FieldOps \o <<Op("cmp", 1, 1, 2)>>
PolyOps(R, a, b) ==
  LET C == CoefRing(R)
      s == Enc(C, Coef(R, b, 0))
  IN <<Op("add", 3, 1, 2), Op("sub", 4, 1, 2), Op("mul", 3, 1, 2), Op("div", 4, 1, 2), Op("mod", 3, 1, 2),
       Op("neg", 3, 1, 1), Op("isub", 3, 1, 2), Op("cmp", 1, 1, 2), Op("eqs", 1, 1, 2),
       [op |-> "qr", d |-> 3, d2 |-> 4, a |-> 1, b |-> 2], Op("gcd", 3, 1, 2),
       [op |-> "egcd", d |-> 2, d2 |-> 3, d3 |-> 4, a |-> 1, b |-> 2], Op("deriv", 3, 1, 1),
       Op("deg", 1, 1, 1), OpN("exp", 4, 1, 2)>>
     \o (IF R.k = "f2p" THEN <<OpV("eval", 1, 1, Coef(R, b, 0)), Op("proot", 4, 1, 1), Op("demote", 1, 1, 1),
                               Op("parity", 1, 1, 1), Op("incr", 1, 1, 1)>>
         ELSE <<OpV("eval", 1, 1, s), OpV("smul", 3, 1, s), OpV("sdiv", 4, 1, s), OpV("sadd", 3, 1, s),
                OpV("ssub", 3, 1, s), Op("prom", 1, 1, 1)>>
              \o (IF C.k = "q" THEN <<>> ELSE <<Op("proot", 4, 2, 2)>>))
Ops(R, a, b) == IF IsPoly(R) THEN PolyOps(R, a, b)
                ELSE IF R.k = "frac" THEN FieldOps
                ELSE IF Kind \in {"bit", "q"} THEN SelectSeq(RingOps, LAMBDA o : ~(Kind = "bit" /\ o.op = "exp"))
                ELSE RingOps \o <<Op("recip", 4, 1, 1)>>

Session(R, a, b) == [k |-> Kind, ring |-> EncRing(R),
                     init |-> <<Enc(R, a), Enc(R, b), Enc(R, a), Enc(R, b)>>,
                     ops |-> Ops(R, a, b)]

VARIABLES sc, a, b, done
gvars == <<sc, a, b, done>>

Init == /\ sc \in DOMAIN Scope
        /\ a \in Scope[sc][2]
        /\ b \in Scope[sc][2]
        /\ done = FALSE
Emit == /\ ~done
        /\ PrintT("SESSION " \o ToJson(Session(Scope[sc][1], a, b)))
        /\ done' = TRUE
        /\ UNCHANGED <<sc, a, b>>
Spec == Init /\ [][Emit]_gvars

\* ---- the laws -------------------------------------------------------------
R0 == Scope[sc][1]
Dom == Scope[sc][2]
Thirds == IF R0.k = "frac" THEN {<<One(R0.c), Add(R0.c, One(R0.c), Monomial(R0.c, 1))>>}
          ELSE IF Big \/ Cardinality(Dom) <= 9 THEN Dom ELSE { CHOOSE x \in Dom : x # a, a, b, One(R0) }
E(x, y) == Eq(R0, x, y)
\* laws about one element are checked once for it
Once == done /\ b = CHOOSE x \in Dom : TRUE

RingLaws ==
  done => \A c \in Thirds :
    /\ E(Add(R0, a, b), Add(R0, b, a))
    /\ E(Add(R0, Add(R0, a, b), c), Add(R0, a, Add(R0, b, c)))
    /\ E(Add(R0, a, Zero(R0)), a) /\ IsZero(R0, Add(R0, a, Neg(R0, a)))
    /\ E(Sub(R0, a, b), Add(R0, a, Neg(R0, b)))
    /\ E(Mul(R0, a, b), Mul(R0, b, a))
    /\ E(Mul(R0, Mul(R0, a, b), c), Mul(R0, a, Mul(R0, b, c)))
    /\ E(Mul(R0, a, Add(R0, b, c)), Add(R0, Mul(R0, a, b), Mul(R0, a, c)))
    /\ E(Mul(R0, a, One(R0)), a)
Canonical ==
  (done /\ R0.k # "frac") =>
    \A x \in {Add(R0, a, b), Neg(R0, a), Mul(R0, a, b), Sub(R0, a, b)} : WF(R0, x)
UnitLaws ==
  (done /\ ~IsPoly(R0)) =>
    /\ IsUnit(R0, a) => E(Mul(R0, a, Inv(R0, a)), One(R0))
    /\ R0.k \in {"zm", "quot"} => (IsUnit(R0, a) <=> \E x \in Dom : E(Mul(R0, a, x), One(R0)))
PowLaws == Once => \A n \in 0..3 : E(Pow(R0, a, n + 1), Mul(R0, a, Pow(R0, a, n)))
DivisionLaws ==
  (done /\ IsPoly(R0) /\ ~IsZero(R0, b)) =>
    LET t == DivMod(R0, a, b)
    IN /\ E(a, Add(R0, Mul(R0, t[1], b), t[2]))
       /\ Deg(R0, t[2]) < Deg(R0, b)
GcdLaws ==
  (done /\ IsPoly(R0)) =>
    LET g == PGcd(R0, a, b)
    IN /\ Divides(R0, g, a) /\ Divides(R0, g, b)
       /\ \A c \in Thirds : (Divides(R0, c, a) /\ Divides(R0, c, b)) => Divides(R0, c, g)
OrderLaws ==
  (done /\ R0.k # "frac") =>
    /\ (IF Less(R0, a, b) THEN 1 ELSE 0) + (IF Less(R0, b, a) THEN 1 ELSE 0) + (IF Eq(R0, a, b) THEN 1 ELSE 0) = 1
    /\ \A c \in Thirds : Less(R0, a, b) /\ Less(R0, b, c) => Less(R0, a, c)
CalculusLaws ==
  (done /\ IsPoly(R0)) =>
    LET C == CoefRing(R0)
        z == Coef(R0, b, 0)
    IN /\ E(Deriv(R0, Mul(R0, a, b)), Add(R0, Mul(R0, Deriv(R0, a), b), Mul(R0, a, Deriv(R0, b))))
       /\ Eq(C, Eval(R0, Mul(R0, a, b), z), Mul(C, Eval(R0, a, z), Eval(R0, b, z)))
       /\ Eq(C, Eval(R0, Add(R0, a, b), z), Add(C, Eval(R0, a, z), Eval(R0, b, z)))
RootLaws ==
  (Once /\ IsPoly(R0) /\ CoefRing(R0).k # "q") =>
    LET p == Char(R0)
    IN /\ HasPthRoot(R0, Pow(R0, a, p)) /\ E(PthRoot(R0, Pow(R0, a, p)), a)
       /\ HasPthRoot(R0, a) => E(Pow(R0, PthRoot(R0, a), p), a)
TextLaws ==
  (Once /\ ~(R0.k = "poly" /\ R0.c.k = "q")) =>
    LET p == ParseText(R0, PrintText(R0, a)) IN p.ok /\ E(p.v, a)
SuccLaws ==
  (done /\ R0.k \in {"f2p", "poly"} /\ CoefRing(R0).k # "q") =>
    /\ Less(R0, a, PSucc(R0, a))
    /\ Less(R0, a, b) => ~Less(R0, b, PSucc(R0, a))
=============================================================================
