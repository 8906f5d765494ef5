---------------------------- MODULE RingMachine ----------------------------
(***************************************************************************)
(* The library seen as a register machine.  The state is a file of         *)
(* registers, each holding an element of one ring; every public call of a  *)
(* number/polynomial/residue/fraction class is one action that reads some  *)
(* registers and writes some registers, or is refused and changes nothing. *)
(* Because every action states the whole next register file, the same      *)
(* definition also says that objects are independent values.               *)
(*                                                                         *)
(* An action instance is a record e:  op, registers d,d2,d3 (destinations) *)
(* a,b (sources), n (int argument), v (value argument) and what was        *)
(* observed: x (1 = refused with an exception), r (returned non-register   *)
(* result), o (the register file afterwards).                              *)
(***************************************************************************)
EXTENDS Text

\* --- which calls are refused, and what the others mean --------------------
Quo(R, a, b) == IF IsPoly(R) THEN DivMod(R, a, b)[1] ELSE Mul(R, a, Inv(R, b))
Rem(R, a, b) == IF IsPoly(R) THEN DivMod(R, a, b)[2] ELSE Zero(R)
DivOk(R, b)  == IF IsPoly(R) THEN ~IsZero(R, b) /\ IsUnit(CoefRing(R), Lead(R, b))
                ELSE IsUnit(R, b)

\* a^n is defined: not 0^0, and negative powers only of units
ExpOk(R, a, n) == /\ ~(IsZero(R, a) /\ n <= 0)
                  /\ (n < 0 => IsUnit(R, a))
ExpVal(R, a, n) == IF n >= 0 THEN Pow(R, a, n) ELSE Pow(R, Inv(R, a), -n)

B2I(b) == IF b THEN 1 ELSE 0

\* successor in the listing order of a ring; <<wrapped, next>> for finite rings
RECURSIVE SuccEl(_, _), PSucc(_, _)
SuccEl(C, c) == IF C.k = "zm" THEN IF c + 1 = C.m THEN <<TRUE, 0>> ELSE <<FALSE, c + 1>>
                ELSE LET t == PSucc(C.c, c)
                     IN IF Deg(C.c, t) = Deg(C.c, C.m) THEN <<TRUE, Zero(C)>> ELSE <<FALSE, t>>
RECURSIVE PSuccAt(_, _, _)
PSuccAt(C, s, i) == IF i > Len(s) THEN Append(s, One(C))
                    ELSE LET t == SuccEl(C, s[i])
                         IN IF t[1] THEN PSuccAt(C, [s EXCEPT ![i] = t[2]], i + 1)
                            ELSE [s EXCEPT ![i] = t[2]]
PSucc(R, a) == IF R.k = "f2p"
               THEN LET k == CHOOSE i \in 0..(Cardinality(a)) :
                                i \notin a /\ \A j \in 0..(i - 1) : j \in a
                    IN (a \ (0..k)) \cup {k}
               ELSE PSuccAt(R.c, a, 1)

\* value of a nonnegative integer read as base-q digits (q = size of coefficient field)
RECURSIVE Digits(_, _)
Digits(n, q) == IF n = 0 THEN <<>> ELSE <<n % q>> \o Digits(n \div q, q)

\* the p-th root of a polynomial whose exponents are all multiples of p
PthRoot(R, a) ==
  LET p == Char(R)
      C == CoefRing(R)
      \* in F_q the p-th root of c is c^(q/p)
      root(c) == IF IsZero(C, c) THEN c ELSE Pow(C, c, RingSize(C) \div p)
  IN FromCoefs(R, [i \in 1..((IF Deg(R, a) < 0 THEN 0 ELSE Deg(R, a) \div p) + 1) |->
                     root(Coef(R, a, p * (i - 1)))])

\* Bezout: g is a gcd of a and b (up to a unit) and g = m a + n b
IsGcd(R, g, a, b) == IF IsZero(R, a) /\ IsZero(R, b) THEN IsZero(R, g)
                     ELSE Monic(R, g) = PGcd(R, a, b) /\ ~IsZero(R, g)
IsBezout(R, g, m, n, a, b) == g = Add(R, Mul(R, m, a), Mul(R, n, b))

(***************************************************************************)
(* Step(R, regs, e, obs): the permitted outcome of call e in register file *)
(* regs.  obs is the decoded observed register file; it is consulted only  *)
(* where the interface leaves a choice (a gcd is determined up to a unit). *)
(* ok says the observed refusal flag and return value are permitted.       *)
(***************************************************************************)
Step(R, regs, e, obs) ==
  LET A   == regs[e.a]
      B   == regs[e.b]
      D   == regs[e.d]
      C   == CoefRing(R)
      V   == Dec(R, e.v)
      SV  == Dec(C, e.v)
      Wr(v)  == [ok |-> e.x = 0, regs |-> [regs EXCEPT ![e.d] = v]]
      Ret(b) == [ok |-> e.x = 0 /\ b, regs |-> regs]
      Refuse == [ok |-> e.x = 1, regs |-> regs]
      Bin(x, y, o) ==
        CASE o = "add" -> Wr(Add(R, x, y))
          [] o = "sub" -> Wr(Sub(R, x, y))
          [] o = "mul" -> Wr(Mul(R, x, y))
          [] o = "div" -> IF DivOk(R, y) THEN Wr(Quo(R, x, y)) ELSE Refuse
          [] o = "mod" -> IF DivOk(R, y) THEN Wr(Rem(R, x, y)) ELSE Refuse
      Scal(x, o) ==
        CASE o = "sadd" -> Wr(Add(R, x, Const(R, SV)))
          [] o = "ssub" -> Wr(Sub(R, x, Const(R, SV)))
          [] o = "smul" -> Wr(ScalarMul(R, SV, x))
          [] o = "sdiv" -> IF IsUnit(C, SV) THEN Wr(ScalarMul(R, Inv(C, SV), x))
                           ELSE Refuse
  IN
  CASE e.op = "init"  -> [ok |-> e.x = 0, regs |-> [i \in DOMAIN e.v |-> Dec(R, e.v[i])]]
    [] e.op = "set"   -> IF R.k = "frac" /\ IsZero(R.c, V[2]) THEN Refuse ELSE Wr(V)
    [] e.op \in {"copy", "asg"} -> Wr(A)
    [] e.op \in {"add", "sub", "mul", "div", "mod"} -> Bin(A, B, e.op)
    [] e.op = "iadd"  -> Bin(D, B, "add")
    [] e.op = "isub"  -> Bin(D, B, "sub")
    [] e.op = "imul"  -> Bin(D, B, "mul")
    [] e.op = "idiv"  -> Bin(D, B, "div")
    [] e.op = "imod"  -> Bin(D, B, "mod")
    [] e.op = "neg"   -> Wr(Neg(R, A))
    [] e.op = "exp"   -> IF ExpOk(R, A, e.n) THEN Wr(ExpVal(R, A, e.n)) ELSE Refuse
    [] e.op = "recip" -> IF IsUnit(R, A)
                         THEN [ok |-> e.x = 0 /\ e.r = 1,
                               regs |-> [regs EXCEPT ![e.d] = Inv(R, A)]]
                         ELSE Ret(e.r = 0)
    [] e.op = "addi"  -> Wr(Add(R, A, Embed(R, e.n)))
    [] e.op = "subi"  -> Wr(Sub(R, A, Embed(R, e.n)))
    [] e.op = "muli"  -> Wr(Mul(R, A, Embed(R, e.n)))
    [] e.op = "imuli" -> Wr(Mul(R, D, Embed(R, e.n)))
    [] e.op = "asgi"  -> Wr(Embed(R, e.n))
    [] e.op = "psub"  -> Wr(Embed(R, e.n))
    [] e.op = "zmul"  -> Wr(Mul(R, A, Embed(R, e.n)))
    [] e.op = "izmul" -> Wr(Mul(R, D, Embed(R, e.n)))
    [] e.op = "char"  -> Ret(e.r = Char(R))
    [] e.op = "eqs"   -> Ret(LET q == Eq(R, A, B) IN e.r = <<B2I(q), B2I(~q)>>)
    [] e.op = "cmp"   -> Ret(LET q == Eq(R, A, B)
                                 l == Less(R, A, B)
                             IN e.r = <<B2I(q), B2I(~q), B2I(l), B2I(~l /\ ~q),
                                        B2I(l \/ q), B2I(~l)>>)
    [] e.op = "cmpi"  -> Ret(LET q == Eq(R, A, Embed(R, e.n))
                             IN e.r = <<B2I(q), B2I(~q)>>)
    [] e.op = "qr"    -> IF DivOk(R, B)
                         THEN [ok |-> e.x = 0,
                               regs |-> [regs EXCEPT ![e.d] = DivMod(R, A, B)[1],
                                                     ![e.d2] = DivMod(R, A, B)[2]]]
                         ELSE Refuse
    [] e.op \in {"gcd", "ggcd"} ->
         [ok |-> e.x = 0 /\ IsGcd(R, obs[e.d], A, B),
          regs |-> [regs EXCEPT ![e.d] = obs[e.d]]]
    [] e.op = "egcd"  ->
         [ok |-> e.x = 0 /\ IsGcd(R, obs[e.d], A, B)
                 /\ IsBezout(R, obs[e.d], obs[e.d2], obs[e.d3], A, B),
          regs |-> [regs EXCEPT ![e.d] = obs[e.d], ![e.d2] = obs[e.d2], ![e.d3] = obs[e.d3]]]
    [] e.op = "deriv" -> Wr(Deriv(R, A))
    [] e.op = "proot" -> IF HasPthRoot(R, A)
                         THEN [ok |-> e.x = 0 /\ e.r = 1,
                               regs |-> [regs EXCEPT ![e.d] = PthRoot(R, A)]]
                         ELSE Ret(e.r = 0)
    [] e.op = "deg"   -> Ret(e.r = IF Deg(R, A) < 0 THEN 0 ELSE Deg(R, A))
    [] e.op = "parity" -> Ret(e.r = Cardinality(A) % 2)
    [] e.op = "incr"  -> Wr(PSucc(R, D))
    [] e.op = "prom"  -> Wr(Mul(R, D, Monomial(R, 1)))
    [] e.op = "promn" -> Wr(Mul(R, D, Monomial(R, e.n)))
    [] e.op = "demote" -> Wr(DivMod(R, D, Monomial(R, 1))[1])
    [] e.op = "promadd" -> Wr(Add(R, Mul(R, D, Monomial(R, 1)), Const(R, SV)))
    [] e.op = "setc"  -> IF e.n < 0 THEN Refuse ELSE Wr(SetCoef(R, D, e.n, SV))
    [] e.op = "setb"  -> IF e.n < 0 THEN Refuse ELSE Wr(SetCoef(R, D, e.n, 1))
    [] e.op = "coef"  -> IF e.n < 0 THEN Refuse ELSE Ret(Dec(C, e.r) = Coef(R, A, e.n))
    [] e.op \in {"eval", "evalb"} -> Ret(Dec(C, e.r) = Eval(R, A, SV))
    [] e.op \in {"sadd", "ssub", "smul", "sdiv"} -> Scal(A, e.op)
    [] e.op = "isadd" -> Scal(D, "sadd")
    [] e.op = "issub" -> Scal(D, "ssub")
    [] e.op = "ismul" -> Scal(D, "smul")
    [] e.op = "isdiv" -> Scal(D, "sdiv")
    [] e.op = "ctor1" -> Wr(Const(R, SV))
    [] e.op \in {"ctor2", "ctor3"} ->
         Wr(FromCoefs(R, Reverse([i \in DOMAIN e.v |-> Dec(C, e.v[i])])))
    [] e.op = "binom" ->
         Wr(Add(R, ScalarMul(R, Dec(C, e.v[1]), Monomial(R, e.v[2])),
                   ScalarMul(R, Dec(C, e.v[3]), Monomial(R, e.v[4]))))
    [] e.op = "base"  ->
         Wr(FromCoefs(R, [i \in 1..Len(Digits(e.n, RingSize(C))) |->
                            Digits(e.n, RingSize(C))[i]]))
    [] e.op = "str"   ->
         \* a fraction's representative is fixed only up to a unit
         IF R.k = "frac" THEN Ret(LET p == ParseText(R, e.r) IN p.ok /\ Eq(R, p.v, A))
         ELSE Ret(e.r = PrintText(R, A))
    [] e.op = "parse" ->
         LET how == Reading(R, e.v) IN
         IF how = "ok"
         THEN [ok |-> e.x = 0 /\ e.r = 1, regs |-> [regs EXCEPT ![e.d] = ParseText(R, e.v).v]]
         ELSE IF how = "bad" \/ e.x = 1 \/ e.r = 0
         THEN [ok |-> e.x = 1 \/ e.r = 0, regs |-> regs]
         ELSE [ok |-> TRUE, regs |-> [regs EXCEPT ![e.d] = obs[e.d]]]
    \* extraction reads the first word, and nothing of what follows it
    [] e.op \in {"scan", "scani"} ->
         LET w == FirstWord(R, e.v)
             how == IF w.word = <<>> THEN "bad" ELSE IF w.word[Len(w.word)] = SLASH THEN "open" ELSE Reading(R, w.word) IN
         IF how = "ok"
         THEN [ok |-> e.x = 0 /\ e.r = 1 /\ e.rest = w.rest, regs |-> [regs EXCEPT ![e.d] = ParseText(R, w.word).v]]
         ELSE IF how = "bad" \/ e.x = 1 \/ e.r = 0
         THEN [ok |-> e.x = 1 \/ e.r = 0, regs |-> regs]
         ELSE [ok |-> TRUE, regs |-> [regs EXCEPT ![e.d] = obs[e.d]]]
    [] e.op = "mixed" -> Refuse
    [] OTHER -> [ok |-> FALSE, regs |-> regs]

\* the observed register file is the specified one (fractions: as fractions)
SameRegs(R, r1, r2) == /\ Len(r1) = Len(r2)
                       /\ \A i \in DOMAIN r1 : Eq(R, r1[i], r2[i])
=============================================================================
