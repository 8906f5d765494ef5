------------------------------- MODULE IntGen -------------------------------
(* Exhaustive check, on a small scope, that the operators of IntMath are    *)
(* what the words say; every state is also emitted as a session to replay.  *)
EXTENDS IntMath, Json, IOUtils
N == IF IOEnv.SIZE = "big" THEN 60 ELSE 20
VARIABLES a, b, done
gvars == <<a, b, done>>
Op(o, x, y) == [op |-> o, a |-> x, b |-> y, u |-> <<>>]
Bits(n) == SelectSeq([k \in 1..31 |-> k - 1], LAMBDA k : (n \div (2 ^ k)) % 2 = 1)
OpU(o, n) == [op |-> o, a |-> 0, b |-> 0, u |-> Bits(n)]
Calls == <<Op("gcd", a, b), Op("gcd2", a, b), Op("lcm", a, b), Op("egcd", a, b), Op("egcd", b, a)>>
  \o (IF b \in 0..5 THEN <<Op("power", a, b)>> ELSE <<>>)
  \o (IF b = 0 THEN <<Op("sqrtf", a, 0), Op("sqrtc", a, 0), Op("isprime", a, 0)>> ELSE <<>>)
  \o (IF b = 0 /\ a >= 2 THEN <<Op("totient", a, 0)>> ELSE <<>>)
  \o (IF b = 0 /\ a >= 1 THEN <<OpU("log10", a), OpU("msb16", a), OpU("msb32", a), OpU("msb64", a), OpU("lsb32", a),
        OpU("lsb64", a), OpU("log2f", a), OpU("log2c", a), OpU("log2llf", a), OpU("log2llc", a)>> ELSE <<>>)
  \o (IF b = 0 THEN <<Op("nthprime", a, 0)>> ELSE <<>>)
Init == a \in (-N)..N /\ b \in (-N)..N /\ done = FALSE
Emit == ~done /\ done' = TRUE /\ UNCHANGED <<a, b>>
        /\ PrintT("SESSION " \o ToJson([k |-> "int", ops |-> Calls]))
Spec == Init /\ [][Emit]_gvars

CommonDivs == { d \in 1..N : a % d = 0 /\ b % d = 0 }
GcdLaw == done => (IF a = 0 /\ b = 0 THEN IGcd(a, b) = 0 ELSE IGcd(a, b) = MaxOf(CommonDivs))
BezoutLaw == (done /\ IGcd(a, b) # 0) => \E m \in (-N)..N, n \in (-N)..N : a * m + b * n = IGcd(a, b)
LinLaw == (done /\ b = 1) => \A m \in (-3)..3, n \in (-3)..3, d \in (-3)..3 : LinComb(a, m, 7, n, d) <=> a * m + 7 * n = d
TotientLaw == (done /\ b = 0 /\ a >= 2) => Totient(a) = Cardinality({ k \in 1..a : IGcd(k, a) = 1 })
PrimeLaw == (done /\ b = 0 /\ a >= 0) => (IsPrime(a) <=> a >= 2 /\ \A d \in 2..(a - 1) : a % d # 0)
SqrtLaw == (done /\ b = 0 /\ a >= 0) => /\ ISqrtF(a) ^ 2 <= a /\ (ISqrtF(a) + 1) ^ 2 > a
                     /\ ISqrtC(a) ^ 2 >= a /\ (a > 0 => (ISqrtC(a) - 1) ^ 2 < a)
ASSUME Len(Primes16) = 6542
=============================================================================
