------------------------------ MODULE IntMath ------------------------------
(***************************************************************************)
(* Integer number theory: what each function call must return.  A call is  *)
(* a record e: op, int arguments a and b, or u (the set bits of an         *)
(* unsigned argument); observed x (1 = refused) and r (result).            *)
(***************************************************************************)
EXTENDS Algebra

MaxInt == 2147483647

\* ---- exact 64-bit identities in 31-bit arithmetic: residues mod enough primes
Probes == <<2147483629, 2147483587, 46337>>
Md(n, p) == n % p                                  \* never negative in TLA+
\* a*m + b*n = d, decided by the Chinese remainder theorem (|both sides| < 2^63)
LinComb(a, m, b, n, d) ==
  \A i \in DOMAIN Probes :
    LET p == Probes[i]
    IN AddMod(MulMod(Md(a, p), Md(m, p), p), MulMod(Md(b, p), Md(n, p), p), p) = Md(d, p)

ISqrtF(n) == \* by bits, high to low: the largest r with r*r <= n
  FoldLeft(LAMBDA r, k : LET t == r + 2 ^ k IN IF t <= 46340 /\ t * t <= n THEN t ELSE r, 0, Desc(15, 0))
ISqrtC(n) == LET f == ISqrtF(n) IN IF f * f = n THEN f ELSE f + 1

IsPrime(n) == n >= 2 /\ \A d \in 2..ISqrtF(n) : n % d # 0
LeastDivisor(n) == IF IsPrime(n) THEN n ELSE CHOOSE d \in 2..ISqrtF(n) : n % d = 0 /\ \A c \in 2..(d - 1) : n % c # 0
RECURSIVE StripAll(_, _), PrimeDivs(_)
StripAll(n, p) == IF n % p = 0 THEN StripAll(n \div p, p) ELSE n
PrimeDivs(n) == IF n = 1 THEN {} ELSE LET p == LeastDivisor(n) IN {p} \cup PrimeDivs(StripAll(n, p))
Totient(n) == FoldSet(LAMBDA p, acc : (acc \div p) * (p - 1), n, PrimeDivs(n))

\* (spelt without ISqrtF so that TLC evaluates the table once)
PrimeSet16 == { n \in 2..65535 : \A d \in 2..255 : d * d > n \/ n % d # 0 }
Primes16 == SetToSortSeq(PrimeSet16, LAMBDA x, y : x < y)

RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)

Log10F(u) == IF 31 \in u THEN 9
             ELSE LET n == FoldSet(LAMBDA k, acc : acc + 2 ^ k, 0, u)
                  IN IF n < 10 THEN 0 ELSE CHOOSE k \in 1..9 : 10 ^ k <= n /\ (k = 9 \/ n < 10 ^ (k + 1))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Log2C(u) == IF Cardinality(u) = 1 THEN MaxOf(u) ELSE MaxOf(u) + 1

Permit(e) ==
  LET Val(v) == e.x = 0 /\ e.r = v
      u == Range0(e.u)
  IN
  CASE e.op \in {"gcd", "gcd2"} -> Val(IGcd(e.a, e.b))
    [] e.op = "lcm" -> IF e.a = 0 \/ e.b = 0 THEN Val(0)
                       ELSE Val((Abs(e.a) \div IGcd(e.a, e.b)) * Abs(e.b))
    [] e.op = "egcd" -> e.x = 0 /\ e.r[1] = IGcd(e.a, e.b) /\ LinComb(e.a, e.r[2], e.b, e.r[3], e.r[1])
    [] e.op = "power" -> Val(IPow(e.a, e.b))
    [] e.op = "sqrtf" -> IF e.a < 0 THEN e.x = 1 ELSE Val(ISqrtF(e.a))
    [] e.op = "sqrtc" -> IF e.a < 0 THEN e.x = 1 ELSE Val(ISqrtC(e.a))
    [] e.op = "totient" -> Val(Totient(e.a))
    [] e.op = "isprime" -> Val(IF IsPrime(Abs(e.a)) THEN 1 ELSE 0)
    [] e.op = "nthprime" -> IF e.a \in DOMAIN Primes16 THEN Val(Primes16[e.a]) ELSE e.x = 1
    [] e.op = "log10" -> Val(Log10F(u))
    [] e.op \in {"msb16", "msb32", "msb64", "log2f", "log2llf"} -> Val(MaxOf(u))
    [] e.op \in {"lsb32", "lsb64"} -> Val(MinOf(u))
    [] e.op = "ones" -> Val(Cardinality(u))   \* u: the set bits of a string of e.a bytes
    [] e.op \in {"log2c", "log2llc"} -> Val(Log2C(u))
    [] OTHER -> FALSE
=============================================================================
