-------------------------------- MODULE Calc --------------------------------
(***************************************************************************)
(* The expression calculators of the command line: one over the elements   *)
(* of any ring, one over vectors, one over matrices.  An expression is a   *)
(* list of tokens (each a character sequence).  Its meaning is given by    *)
(* splitting at the last operator of the loosest level:                    *)
(*   level 0  == != /=     1  < <= > >=     2  + -     3  * . / %          *)
(*   level 4  one leading sign, or one matrix function                     *)
(*   level 5  ^ (left to right; everything inside an exponent is an        *)
(*            integer)     6  ( e ) or a literal; e starts at level 2      *)
(* Value:  [t |-> "err"]  refused, nothing printed;                        *)
(*         [t |-> "any"]  the interface promises nothing (overflow, ...);  *)
(*         otherwise int, el, vec, mat, or how (a matrix determined up to  *)
(*         row operations).                                                *)
(***************************************************************************)
EXTENDS MatMachine

ERR == [t |-> "err"]
ANY == [t |-> "any"]
IntR(n) == [t |-> "int", v |-> n]
ElR(x) == [t |-> "el", v |-> x]
VecR(x) == [t |-> "vec", v |-> x]
MatR(x) == [t |-> "mat", v |-> x]
HowR(o, A) == [t |-> "how", o |-> o, v |-> A]

\* ---- tokens ---------------------------------------------------------------
OpTok(K, t) ==
  CASE t = <<43>> -> "+"  [] t = <<45>> -> "-"
    [] t = <<42>> \/ t = <<46>> -> "*"
    [] t = <<94>> -> "^"
    [] t = <<61, 61>> -> "=="
    [] t = <<33, 61>> \/ t = <<47, 61>> -> "!="
    [] t = <<40>> \/ t = <<91>> -> "("
    [] t = <<41>> \/ t = <<93>> -> ")"
    [] K = "el" /\ t = <<47>> -> "/"
    [] K = "el" /\ t = <<37>> -> "%"
    [] K = "el" /\ t = <<60>> -> "<"
    [] K = "el" /\ t = <<60, 61>> -> "<="
    [] K = "el" /\ t = <<62>> -> ">"
    [] K = "el" /\ t = <<62, 61>> -> ">="
    [] K = "mat" /\ t = <<114, 97, 110, 107>> -> "rank"
    [] K = "mat" /\ t = <<100, 101, 116>> -> "det"
    [] K = "mat" /\ t = <<105, 110, 118>> -> "inv"
    [] K = "mat" /\ t = <<107, 101, 114, 98, 97, 115>> -> "kerbas"
    [] K = "mat" /\ t = <<114, 114>> -> "rr"
    [] K = "mat" /\ t = <<114, 101, 99, 104>> -> "rech"
    [] K = "mat" /\ t = <<114, 101, 99, 104, 114>> -> "rechr"
    [] K = "mat" /\ t = <<114, 114, 110, 122>> -> "rrnz"
    [] K = "mat" /\ t = <<114, 101, 99, 104, 110, 122>> -> "rechnz"
    [] K = "mat" /\ t = <<116, 114, 97, 110, 115, 112, 111, 115, 101>> -> "transpose"
    [] OTHER -> "num"
LevOf(o) == CASE o \in {"==", "!="} -> 0
              [] o \in {"<", "<=", ">", ">="} -> 1
              [] o \in {"+", "-"} -> 2
              [] o \in {"*", "/", "%"} -> 3
              [] o = "^" -> 5
              [] OTHER -> 9
MatFuns == {"rank", "det", "inv", "kerbas", "rr", "rech", "rechr", "rrnz", "rechnz", "transpose"}

\* ---- literals -------------------------------------------------------------
\* characters that cannot start any number
NoNumber(t) == t # <<>> /\ (t[1] \in 103..122 \/ t[1] \in 71..90 \/ t[1] \in {63, 95, 33, 64})
IntLit(t) == IF IsInt(t) THEN (IF Len(t) <= 9 THEN IntR(IntVal(t)) ELSE ANY)
             ELSE IF NoNumber(t) \/ (t # <<>> /\ t[1] \in 97..122) THEN ERR ELSE ANY
ElLit(R, t) ==
  IF R.k = "z" THEN LET p == IntLit(t) IN IF p.t = "int" THEN ElR(p.v) ELSE p
  ELSE IF Len(t) > (IF R.k \in {"zm", "q"} THEN 9 ELSE 60) THEN ANY
  ELSE LET p == ParseText(R, t)
       IN IF p.ok THEN ElR(p.v) ELSE IF NoNumber(t) THEN ERR ELSE ANY
HasBracket(t) == 91 \in Range0(t)
VecLit(R, t) == IF ~HasBracket(t) THEN ERR
                ELSE LET p == BracketV(R, t) IN IF p.ok THEN VecR(p.v) ELSE ANY
\* a matrix literal without brackets names a file
MatLit(R, t, files) ==
  IF HasBracket(t) THEN LET p == BracketM(R, t) IN IF p.ok THEN MatR(p.v) ELSE ANY
  ELSE LET F == { i \in DOMAIN files : files[i][1] = t }
       IN IF F = {} THEN ERR
          ELSE LET p == ParseRows(R, MBlock(Lines(files[CHOOSE i \in F : TRUE][2]))[1])
               IN IF p.ok THEN MatR(p.v) ELSE ERR
Lit(c, t, ex) == IF ex THEN IntLit(t)
                 ELSE CASE c.K = "el" -> ElLit(c.R, t)
                        [] c.K = "vec" -> VecLit(c.R, t)
                        [] c.K = "mat" -> MatLit(c.R, t, c.files)

\* ---- arithmetic -----------------------------------------------------------
QSz(x) == IF Abs(x[1]) > x[2] THEN Abs(x[1]) ELSE x[2]
\* small enough that neither side overflows
Small(R, a) == CASE R.k = "z" -> Abs(a) <= 30000
                 [] R.k = "q" -> QSz(a) <= 10000
                 [] R.k = "poly" /\ R.c.k = "q" -> Len(a) <= 4 /\ \A i \in DOMAIN a : QSz(a[i]) <= 30 /\ a[i][2] \in {1, 2, 3, 4, 6}
                 [] OTHER -> TRUE
SmallDiv(R, b) == R.k = "poly" /\ R.c.k = "q" /\ b # <<>> => QSz(b[Len(b)]) <= 5
RECURSIVE PowUpTo(_, _, _)
PowUpTo(c, n, cap) == IF n = 0 \/ c <= 1 THEN TRUE ELSE IF cap < c THEN FALSE ELSE PowUpTo(c, n - 1, cap \div c)
PowOk(R, a, n) == LET m == Abs(n) IN
  CASE R.k = "z" -> PowUpTo(Abs(a), 2 * m, 1000000000)
    [] R.k = "q" -> PowUpTo(QSz(a), 2 * m, 1000000000)
    [] R.k = "poly" /\ R.c.k = "q" -> m <= 2
    [] R.k \in {"f2p", "poly"} -> m = 0 \/ Deg(R, a) < 1 \/ (m <= 200 /\ m * Deg(R, a) <= 120)
    [] R.k = "frac" -> m <= 4
    [] OTHER -> TRUE
TQuo(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
ElBin(R, o, a, b) ==
  IF ~Small(R, a) \/ ~Small(R, b) THEN ANY
  ELSE CASE o = "+" -> ElR(Add(R, a, b))
         [] o = "-" -> ElR(Sub(R, a, b))
         [] o = "*" -> ElR(Mul(R, a, b))
         [] o \in {"/", "%"} ->
              IF R.k = "z" THEN (IF b = 0 THEN ERR ELSE ElR(IF o = "/" THEN TQuo(a, b) ELSE a - b * TQuo(a, b)))
              ELSE IF (R.k = "zm" /\ R.m = 1) \/ ~SmallDiv(R, b) THEN ANY
              ELSE IF ~DivOk(R, b) THEN ERR ELSE ElR(IF o = "/" THEN Quo(R, a, b) ELSE Rem(R, a, b))
         [] o = "==" -> IntR(B2I(Eq(R, a, b)))
         [] o = "!=" -> IntR(B2I(~Eq(R, a, b)))
         [] R.k = "frac" /\ R.c.k # "f2p" -> ANY          \* no order promised
         [] R.k = "poly" /\ R.c.k # "zm" -> ANY
         [] R.k = "quot" /\ R.c.k # "f2p" -> ANY
         [] o = "<" -> IntR(B2I(Less(R, a, b)))
         [] o = "<=" -> IntR(B2I(Less(R, a, b) \/ Eq(R, a, b)))
         [] o = ">" -> IntR(B2I(~Less(R, a, b) /\ ~Eq(R, a, b)))
         [] o = ">=" -> IntR(B2I(~Less(R, a, b)))
ElPow(R, a, n) ==
  IF (R.k = "zm" /\ R.m = 1) \/ ~PowOk(R, a, n) THEN ANY
  ELSE IF IsZero(R, a) THEN (IF n <= 0 THEN ERR ELSE ElR(a))
  ELSE IF n >= 0 THEN ElR(Pow(R, a, n))
  ELSE IF R.k = "z" THEN (IF a \in {1, -1} THEN ElR(IF n % 2 = 0 THEN 1 ELSE a) ELSE ANY)
  ELSE IF IsUnit(R, a) THEN ElR(Pow(R, Inv(R, a), -n))
  ELSE IF IsPoly(R) THEN ANY ELSE ERR
VecBin(R, o, u, v) ==
  CASE o = "==" -> IntR(B2I(u = v))
    [] o = "!=" -> IntR(B2I(u # v))
    [] Len(u) # Len(v) -> ERR
    [] o = "+" -> VecR(VAdd(R, u, v))
    [] o = "-" -> VecR(VSub(R, u, v))
    [] o = "*" -> VecR(VMul(R, u, v))
\* (in Z/2 the inverse of zero is not diagnosed)
VecPow(R, u, n) == IF R.k = "zm" /\ R.m = 2 /\ n <= 0 THEN ANY
                   ELSE IF \A i \in DOMAIN u : ExpOk(R, u[i], n)
                   THEN VecR([i \in DOMAIN u |-> ExpVal(R, u[i], n)]) ELSE ERR
MatBin(R, o, A, B) ==
  CASE o \in {"+", "-", "==", "!="} /\ ~SameDims(A, B) -> ERR
    [] o = "+" -> MatR(MAdd(R, A, B))
    [] o = "-" -> MatR(MSub(R, A, B))
    [] o = "==" -> IntR(B2I(SameMat(R, A, B)))
    [] o = "!=" -> IntR(B2I(~SameMat(R, A, B)))
    [] o = "*" -> IF NC(A) = NR(B) THEN MatR(MMul(R, A, B)) ELSE ERR
FlipH(A) == [i \in DOMAIN A |-> Reverse(A[i])]
MatPow(c, A, n) ==
  IF ~Square(A) THEN ERR
  \* over a residue ring that is not a field the "one" may be found from a unit-less entry
  ELSE IF ~c.fld /\ c.R.k \in {"quot", "zm"} THEN ANY
  ELSE IF n >= 1 THEN (IF n <= (IF c.R.k = "frac" THEN 2 ELSE IF c.fld THEN 64 ELSE 6) THEN MatR(MPow(c.R, A, n)) ELSE ANY)
  ELSE IF ~c.fld \/ n < -64 THEN ANY
  ELSE IF Invertible(c.R, A) THEN MatR(MPow(c.R, MInv(c.R, A), -n)) ELSE ERR
MatFun(c, o, A) ==
  LET R == c.R IN
  IF o = "transpose" THEN MatR(Transp(A))
  ELSE IF ~c.fld THEN ANY
  ELSE CASE o = "rank" -> IntR(Rank(R, A))
         [] o = "det" -> IF Square(A) THEN ElR(FDet(R, A)) ELSE ERR
         [] o = "inv" -> IF Square(A) /\ Invertible(R, A) THEN MatR(MInv(R, A)) ELSE ERR
         [] o = "rech" -> MatR(Rref(R, A))
         [] o = "rechr" -> MatR(Reverse(FlipH(Rref(R, FlipH(A)))))
         [] o = "rechnz" -> IF Rank(R, A) = 0 THEN ERR ELSE MatR(SubSeq(Rref(R, A), 1, Rank(R, A)))
         [] o = "rrnz" -> IF Rank(R, A) = 0 THEN ERR ELSE HowR(o, A)
         [] o = "kerbas" -> IF Rank(R, A) = NC(A) THEN ERR ELSE HowR(o, A)
         [] o = "rr" -> HowR(o, A)
HowOk(R, o, A, B) ==
  CASE o = "rr" -> EchelonShape(R, B) /\ RowEquiv(R, A, B)
    [] o = "rrnz" -> NR(B) = Rank(R, A) /\ EchelonShape(R, B) /\ SameMat(R, Rref(R, B), SubSeq(Rref(R, A), 1, Rank(R, A)))
    [] o = "kerbas" -> IsKernelBasis(R, A, B)

\* ---- operators ------------------------------------------------------------
\* nothing can be said about what follows an unspecified operand
Un(c, o, x) ==
  CASE x.t = "any" \/ x.t = "err" -> x
    [] o = "+" -> x
    [] x.t = "int" -> ERR
    [] x.t = "how" -> ANY
    [] o = "-" -> (CASE x.t = "el" /\ c.K = "el" -> IF Small(c.R, x.v) THEN ElR(Neg(c.R, x.v)) ELSE ANY
                    [] x.t = "el" -> ERR               \* a determinant is not an operand
                    [] x.t = "vec" -> VecR(VNeg(c.R, x.v))
                    [] x.t = "mat" -> MatR(MNeg(c.R, x.v)))
    [] x.t = "mat" -> MatFun(c, o, x.v)
    [] OTHER -> ERR
Bin(c, o, x, y) ==
  LET opnd == c.K IN
  CASE x.t = "any" \/ y.t = "any" -> ANY
    [] x.t = "err" \/ y.t = "err" -> ERR
    [] x.t = "how" \/ y.t = "how" -> ANY
    [] o = "^" -> IF x.t # opnd \/ y.t # "int" THEN ERR
                  ELSE (CASE c.K = "el" -> ElPow(c.R, x.v, y.v)
                         [] c.K = "vec" -> VecPow(c.R, x.v, y.v)
                         [] c.K = "mat" -> MatPow(c, x.v, y.v))
    [] x.t # opnd \/ y.t # opnd -> ERR
    [] c.K = "el" -> ElBin(c.R, o, x.v, y.v)
    [] c.K = "vec" -> VecBin(c.R, o, x.v, y.v)
    [] c.K = "mat" -> MatBin(c.R, o, x.v, y.v)

\* ---- meaning of a token list ----------------------------------------------
\* ks: token kinds;  ts: the tokens themselves
Depths(ks) == [i \in DOMAIN ks |-> Cardinality({ j \in 1..(i - 1) : ks[j] = "(" })
                                   - Cardinality({ j \in 1..(i - 1) : ks[j] = ")" })]
Enclosed(ks) == /\ Len(ks) >= 3 /\ ks[1] = "(" /\ ks[Len(ks)] = ")"
                /\ LET d == Depths(ks) IN d[Len(ks)] = 1 /\ \A i \in 2..(Len(ks) - 1) : d[i] >= 1
RECURSIVE Meaning(_, _, _, _, _)
Meaning(c, ks, ts, lev, ex) ==
  LET n == Len(ks)
      sub(i, j, l, x) == Meaning(c, SubSeq(ks, i, j), SubSeq(ts, i, j), l, x)
  IN IF n = 0 THEN ERR
     ELSE IF lev = 4
     THEN IF ks[1] \in {"+", "-"} \cup MatFuns THEN Un(c, ks[1], sub(2, n, 5, ex)) ELSE sub(1, n, 5, ex)
     ELSE IF lev = 6
     THEN IF n = 1 THEN (IF ks[1] = "num" THEN Lit(c, ts[1], ex) ELSE ERR)
          ELSE IF Enclosed(ks) THEN sub(2, n - 1, 2, ex) ELSE ERR
     ELSE LET d == Depths(ks)
              S == { i \in 2..n : LevOf(ks[i]) = lev /\ d[i] = 0 /\ ks[i - 1] \in {"num", ")"} }
          IN IF S = {} THEN sub(1, n, lev + 1, ex)
             ELSE LET i == MaxOf(S)
                  IN Bin(c, ks[i], sub(1, i - 1, lev, ex), sub(i + 1, n, lev + 1, ex \/ lev = 5))
Kinds(K, ts) == [i \in DOMAIN ts |-> OpTok(K, ts[i])]
Value(c, ts) == Meaning(c, Kinds(c.K, ts), ts, 0, FALSE)

\* ---- the same language by one left-to-right pass (cross-check) ------------
\* <<value, tokens left>>; a failed prefix makes the whole expression fail
RECURSIVE LL(_, _, _, _, _), LLMore(_, _, _, _, _, _)
LL(c, ks, ts, lev, ex) ==
  IF lev = 6
  THEN IF ks = <<>> THEN <<ERR, ks, ts>>
       ELSE IF ks[1] = "num" THEN <<Lit(c, ts[1], ex), Tail(ks), Tail(ts)>>
       ELSE IF ks[1] # "(" THEN <<ERR, ks, ts>>
       ELSE LET r == LL(c, Tail(ks), Tail(ts), 2, ex)
            IN IF r[2] # <<>> /\ r[2][1] = ")" THEN <<r[1], Tail(r[2]), Tail(r[3])>>
               ELSE <<IF r[1] = ANY THEN ANY ELSE ERR, r[2], r[3]>>
  ELSE IF lev = 4
  THEN IF ks # <<>> /\ ks[1] \in {"+", "-"} \cup MatFuns
       THEN LET r == LL(c, Tail(ks), Tail(ts), 5, ex) IN <<Un(c, ks[1], r[1]), r[2], r[3]>>
       ELSE LL(c, ks, ts, 5, ex)
  ELSE LLMore(c, LL(c, ks, ts, lev + 1, ex), lev, ex, 0, 0)
LLMore(c, r, lev, ex, dummy, dummy2) ==
  IF r[2] = <<>> \/ LevOf(r[2][1]) # lev THEN r
  ELSE LET q == LL(c, Tail(r[2]), Tail(r[3]), lev + 1, ex \/ lev = 5)
       IN LLMore(c, <<Bin(c, r[2][1], r[1], q[1]), q[2], q[3]>>, lev, ex, 0, 0)
ValueLL(c, ts) == LET r == LL(c, Kinds(c.K, ts), ts, 0, FALSE)
                  IN IF r[2] = <<>> THEN r[1] ELSE IF r[1] = ANY THEN ANY ELSE ERR

\* ---- what is printed ------------------------------------------------------
ShowsEl(R, a, t) == IF R.k # "frac" THEN t = PrintText(R, a)
                    ELSE LET p == ParseText(R, t) IN p.ok /\ Eq(R, p.v, a)
ShowsMat(R, A, t) == IF R.k # "frac" THEN t = MText(R, A)
                     ELSE LET p == ParseRows(R, MBlock(Lines(t))[1]) IN p.ok /\ SameMat(R, p.v, A)
Shows(c, r, t) ==
  LET line == IF t # <<>> THEN SubSeq(t, 1, Len(t) - 1) ELSE <<>>
      nl == t # <<>> /\ t[Len(t)] = NL
  IN CASE r.t = "int" -> t = DecText(r.v) \o <<NL>>
       [] r.t = "el" -> nl /\ ShowsEl(c.R, r.v, line)
       [] r.t = "vec" -> nl /\ line = VText(c.R, r.v)
       [] r.t = "mat" -> ShowsMat(c.R, r.v, t)
       [] r.t = "how" -> LET p == ParseRows(c.R, MBlock(Lines(t))[1])
                         IN p.ok /\ HowOk(c.R, r.o, r.v, p.v) /\ t = MText(c.R, p.v)
\* one run of a calculator: tokens, whether it was refused, what it printed
Accept(c, ts, refused, out) ==
  IF ts = <<>> THEN ~refused /\ out = <<>>
  ELSE LET r == Value(c, ts)
       IN CASE r.t = "any" -> TRUE
            [] r.t = "err" -> refused /\ out = <<>>
            [] OTHER -> ~refused /\ Shows(c, r, out)
=============================================================================
