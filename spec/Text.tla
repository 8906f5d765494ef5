-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The external text forms.  A text is a sequence of character codes.      *)
(*   Z/m      decimal                 Q   n  or  n/d                       *)
(*   F2[x]    hexadecimal bit string                                       *)
(*   Fp[x]    coefficients high to low, no separator for p < 10, else ","  *)
(*   F2^n[y]  hexadecimal coefficients high to low, separated by ":"       *)
(*   Fp^n[y]  Fp[x] coefficients high to low, separated by ":"             *)
(*   residues as the polynomial, left-padded with zeros to the modulus     *)
(*   fractions  n  or  n/d                                                 *)
(***************************************************************************)
EXTENDS Algebra

COMMA == 44  COLON == 58  SLASH == 47  MINUS == 45  SPACE == 32  TAB == 9  NL == 10
IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
IsWs(c) == c \in {SPACE, TAB, NL}
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
HexChar(v) == IF v < 10 THEN 48 + v ELSE 87 + v

RECURSIVE DecText(_), DecVal(_, _)
DecText(n) == IF n < 0 THEN <<MINUS>> \o DecText(-n)
              ELSE IF n < 10 THEN <<48 + n>>
              ELSE DecText(n \div 10) \o <<48 + (n % 10)>>
DecVal(t, acc) == IF t = <<>> THEN acc ELSE DecVal(Tail(t), 10 * acc + (Head(t) - 48))

Rep(c, n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
JoinBy(parts, sep) == FoldLeft(LAMBDA acc, i : acc \o (IF i > 1 /\ sep # 0 THEN <<sep>> ELSE <<>>) \o parts[i],
                               <<>>, [i \in 1..Len(parts) |-> i])
\* maximal pieces between separators (empty pieces kept)
SplitBy(t, sep) ==
  LET cut == FoldLeft(LAMBDA acc, i : IF t[i] = sep THEN Append(acc, i) ELSE acc,
                      <<0>>, [i \in 1..Len(t) |-> i]) \o <<Len(t) + 1>>
  IN [k \in 1..(Len(cut) - 1) |-> SubSeq(t, cut[k] + 1, cut[k + 1] - 1)]

F2Text(a) == LET n == IF MaxOf(a) < 0 THEN 1 ELSE MaxOf(a) \div 4 + 1
             IN [i \in 1..n |->
                   HexChar(FoldLeft(LAMBDA acc, b : acc + (IF (4 * (n - i) + b) \in a THEN 2 ^ b ELSE 0),
                                    0, <<0, 1, 2, 3>>))]
F2FromHex(t) == { 4 * (Len(t) - k[1]) + k[2] :
                    k \in { kb \in (1..Len(t)) \X (0..3) : (HexVal(t[kb[1]]) \div (2 ^ kb[2])) % 2 = 1 } }

RECURSIVE PrintText(_, _), PrintPadded(_, _, _)
\* coefficient separator of a polynomial ring's text form, 0 = none
Sep(R) == IF R.c.k = "zm" THEN (IF R.c.m > 9 THEN COMMA ELSE 0)
          ELSE IF R.c.k = "q" THEN COMMA ELSE COLON
\* coefficients of residue rings appear as bare (unpadded) polynomials
CoefText(C, c) == IF C.k = "quot" THEN PrintText(C.c, c) ELSE PrintText(C, c)
PrintPadded(R, a, n) ==        \* at least n coefficients
  LET w == IF Len(a) < 1 THEN 1 ELSE Len(a)
      m == IF n > w THEN n ELSE w
  IN JoinBy([i \in 1..m |-> CoefText(R.c, Coef(R, a, m - i))], Sep(R))
PrintText(R, a) ==
  CASE R.k \in {"z", "zm"} -> DecText(a)
    [] R.k = "q" -> IF a[2] = 1 THEN DecText(a[1]) ELSE DecText(a[1]) \o <<SLASH>> \o DecText(a[2])
    [] R.k = "f2p" -> F2Text(a)
    [] R.k = "poly" -> PrintPadded(R, a, 1)
    [] R.k = "quot" ->
         IF R.c.k = "f2p"
         THEN LET t == F2Text(a) IN Rep(48, ((Deg(R.c, R.m) + 3) \div 4) - Len(t)) \o t
         ELSE PrintPadded(R.c, a, Deg(R.c, R.m))
    [] R.k = "frac" -> IF a[2] = One(R.c) THEN PrintText(R.c, a[1])
                       ELSE PrintText(R.c, a[1]) \o <<SLASH>> \o PrintText(R.c, a[2])

Bad == [ok |-> FALSE]
Good(v) == [ok |-> TRUE, v |-> v]
RECURSIVE TrimL(_)
TrimL(t) == IF t # <<>> /\ IsWs(Head(t)) THEN TrimL(Tail(t)) ELSE t
AllDigits(t) == t # <<>> /\ \A i \in DOMAIN t : IsDigit(t[i])
AllHex(t) == t # <<>> /\ \A i \in DOMAIN t : IsHex(t[i])
IsInt(t) == AllDigits(t) \/ (Len(t) > 1 /\ t[1] = MINUS /\ AllDigits(Tail(t)))
IntVal(t) == IF t[1] = MINUS THEN -DecVal(Tail(t), 0) ELSE DecVal(t, 0)

\* without a comma, a minus sign or a slash makes one rational coefficient
OneRat(t) == MINUS \in Range0(t) \/ SLASH \in Range0(t)

RECURSIVE ParseText(_, _)
ParseText(R, t0) ==
  LET t == TrimL(t0) IN
  CASE R.k = "zm" -> IF IsInt(t) THEN Good(IntVal(t) % R.m) ELSE Bad
    [] R.k = "z" -> IF IsInt(t) THEN Good(IntVal(t)) ELSE Bad
    [] R.k = "q" ->
         LET p == SplitBy(t, SLASH) IN
         IF Len(p) = 1 /\ IsInt(p[1]) THEN Good(<<IntVal(p[1]), 1>>)
         ELSE IF Len(p) = 2 /\ IsInt(p[1]) /\ IsInt(p[2]) /\ IntVal(p[2]) # 0
         THEN Good(QNorm(IntVal(p[1]), IntVal(p[2])))
         ELSE Bad
    [] R.k = "f2p" -> IF AllHex(t) THEN Good(F2FromHex(t)) ELSE Bad
    [] R.k = "poly" /\ R.c.k = "q" ->
         LET p == IF COMMA \in Range0(t) THEN SplitBy(t, COMMA)
                  ELSE IF OneRat(t) THEN <<t>> ELSE [i \in DOMAIN t |-> <<t[i]>>]
             q == [i \in DOMAIN p |-> ParseText(R.c, p[i])]
         IN IF p # <<>> /\ \A i \in DOMAIN p : p[i] # <<>> /\ q[i].ok
            THEN Good(PNorm(R.c, [i \in 1..Len(p) |-> q[Len(p) + 1 - i].v]))
            ELSE Bad
    [] R.k = "poly" /\ R.c.k = "zm" ->
         LET bare == COMMA \notin Range0(t) /\ R.c.m < 10
             p == IF bare THEN [i \in DOMAIN t |-> <<t[i]>>] ELSE SplitBy(t, COMMA)
         IN IF p # <<>> /\ \A i \in DOMAIN p : AllDigits(p[i])
            THEN Good(PNorm(R.c, [i \in 1..Len(p) |-> Embed(R.c, DecVal(p[Len(p) + 1 - i], 0))]))
            ELSE Bad
    [] R.k = "poly" /\ R.c.k = "quot" ->
         LET p == SplitBy(t, COLON)
             q == [i \in DOMAIN p |-> ParseText(R.c.c, p[i])]
         IN IF p # <<>> /\ \A i \in DOMAIN q : p[i] # <<>> /\ q[i].ok
            THEN Good(PNorm(R.c, [i \in 1..Len(p) |->
                        DivMod(R.c.c, q[Len(p) + 1 - i].v, R.c.m)[2]]))
            ELSE Bad
    [] R.k = "quot" -> LET p == ParseText(R.c, t)
                       IN IF p.ok THEN Good(DivMod(R.c, p.v, R.m)[2]) ELSE Bad
    [] R.k = "frac" ->
         LET p == SplitBy(t, SLASH)
             q == [i \in DOMAIN p |-> ParseText(R.c, p[i])]
         IN IF Len(p) = 1 /\ q[1].ok THEN Good(<<q[1].v, One(R.c)>>)
            ELSE IF Len(p) = 2 /\ q[1].ok /\ q[2].ok /\ ~IsZero(R.c, q[2].v)
            THEN Good(<<q[1].v, q[2].v>>)
            ELSE Bad

\* How a text must be treated: "ok" read as ParseText says, "bad" refused, or
\* "open" - it begins like a value but is followed by something else, or has
\* an empty place between separators: it may be refused or taken for any value.
HasPrefix(t, Ok(_)) == \E n \in 1..Len(t) : Ok(SubSeq(t, 1, n))
RECURSIVE Reading(_, _), Inner(_, _), PieceReading(_, _)
PieceReading(C, t) ==                \* one coefficient
  IF C.k = "q" THEN (IF t = <<>> THEN "open" ELSE LET r == Reading(C, t) IN IF TrimL(t) # t /\ r = "ok" THEN "open" ELSE r)
  ELSE IF C.k = "zm" THEN (IF AllDigits(t) THEN "ok" ELSE IF t = <<>> \/ HasPrefix(TrimL(t), IsInt) THEN "open" ELSE "bad")
  ELSE IF t = <<>> THEN "open" ELSE Inner(C.c, t)
\* inside a larger text, junk after a run of digits ends the piece, and what
\* follows the first doubtful coefficient is not looked at
Inner(R, t) == LET r == Reading(R, t)
               IN IF r = "bad" /\ R.k = "poly" /\ R.c.k = "zm" /\ HasPrefix(TrimL(t), AllDigits) THEN "open"
                  ELSE IF r = "bad" /\ t # <<>> /\ R.k = "poly" /\ R.c.k = "quot"
                  THEN LET q == SplitBy(TrimL(t), COLON)
                           f == [i \in DOMAIN q |-> PieceReading(R.c, q[i])]
                           E == { i \in DOMAIN f : f[i] # "ok" }
                       IN IF f[CHOOSE i \in E : \A k \in E : i <= k] = "open" THEN "open" ELSE r
                  ELSE r
AllReading(rs) == IF "bad" \in rs THEN "bad" ELSE IF "open" \in rs THEN "open" ELSE "ok"
Reading(R, t0) ==
  LET t == TrimL(t0) IN
  CASE R.k \in {"z", "zm"} -> IF IsInt(t) THEN "ok" ELSE IF HasPrefix(t, IsInt) THEN "open" ELSE "bad"
    [] R.k = "q" -> IF ParseText(R, t).ok THEN "ok"
                    ELSE LET p == SplitBy(t, SLASH)
                             ok(i) == HasPrefix(TrimL(p[i]), IsInt)
                         IN IF ~ok(1) \/ (IsInt(p[1]) /\ Len(p) >= 2 /\ ~ok(2)) THEN "bad"
                            ELSE IF Len(p) = 2 /\ IsInt(p[1]) /\ IsInt(p[2]) THEN "bad"       \* n/0
                            ELSE "open"
    [] R.k = "f2p" -> IF AllHex(t) THEN "ok" ELSE IF HasPrefix(t, AllHex) THEN "open" ELSE "bad"
    [] R.k = "poly" /\ R.c.k \in {"zm", "q"} ->
         IF t = <<>> THEN "bad"
         ELSE IF COMMA \notin Range0(t) /\ R.c.k = "q" /\ OneRat(t)
         THEN PieceReading(R.c, t0)
         ELSE IF COMMA \notin Range0(t) /\ (R.c.k = "q" \/ R.c.m < 10)
         THEN (IF t0 # t THEN (IF AllDigits(t) THEN "open" ELSE "bad") ELSE IF AllDigits(t) THEN "ok" ELSE "bad")
         ELSE AllReading({ PieceReading(R.c, p) : p \in Range0(SplitBy(t, COMMA)) })
    [] R.k = "poly" /\ R.c.k = "quot" ->
         IF t = <<>> THEN "bad"
         ELSE AllReading({ PieceReading(R.c, p) : p \in Range0(SplitBy(t, COLON)) })
    [] R.k = "quot" -> Reading(R.c, t0)
    [] R.k = "frac" ->
         LET p == SplitBy(t, SLASH)
             r == [i \in DOMAIN p |-> Inner(R.c, p[i])]
         IN IF Len(p) = 1 THEN r[1]
            ELSE IF r[1] # "ok" THEN r[1]
            ELSE IF Len(p) > 2 THEN (IF r[2] = "bad" THEN "bad" ELSE "open")
            ELSE IF r[2] = "ok" THEN (IF ParseText(R, t).ok THEN "ok" ELSE "bad")
            ELSE r[2]
\* the characters a text of R is made of, and the first such word of a text
RECURSIVE WordChar(_, _), SpanLen(_, _, _)
WordChar(R, c) == CASE R.k \in {"z", "zm"} -> IsDigit(c) \/ c = MINUS
                    [] R.k = "q" -> IsDigit(c) \/ c \in {MINUS, SLASH}
                    [] R.k = "f2p" -> IsHex(c)
                    [] R.k = "poly" -> IF R.c.k = "quot" THEN c = COLON \/ WordChar(R.c, c) ELSE IsDigit(c) \/ c = COMMA \/ (R.c.k = "q" /\ c \in {MINUS, SLASH})
                    [] R.k = "quot" -> WordChar(R.c, c)
                    [] R.k = "frac" -> c = SLASH \/ WordChar(R.c, c)
SpanLen(R, t, n) == IF n < Len(t) /\ WordChar(R, t[n + 1]) THEN SpanLen(R, t, n + 1) ELSE n
FirstWord(R, t0) == LET t == TrimL(t0)
                        n == SpanLen(R, t, 0)
                    IN [word |-> SubSeq(t, 1, n), rest |-> SubSeq(t, n + 1, Len(t))]
=============================================================================
