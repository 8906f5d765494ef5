---------------------------- MODULE RandMachine ----------------------------
(***************************************************************************)
(* The library's source of randomness as a machine.  State z:              *)
(*   gen   <<>> (not known) or the 64-bit state of the shared generator    *)
(*   reg   the states of two caller-owned generators                       *)
(*   seed, calls, res   what was drawn since the last seed                 *)
(*   past  the earlier runs: the same calls after the same seed must give  *)
(*         the same results                                                *)
(* A draw of a random element may step the shared generator any number of  *)
(* times; its results are in range, and a long draw reaches every value.   *)
(***************************************************************************)
EXTENDS Algebra, Psdes

Z0 == [gen |-> <<>>, reg |-> <<<<ZeroW, ZeroW>>, <<ZeroW, ZeroW>>>>, seed |-> <<>>, calls |-> <<>>, res |-> <<>>, past |-> <<>>]

\* ---- random elements: range
BitRing(n) == [k |-> "bits", n |-> n]
Width(f) == IF f = "u64" THEN 64 ELSE 32
Raw(f) == f \in {"u32", "u64", "int"}
Refused(f, R, n) == IF f = "poly" THEN n < 0 \/ (R.k = "poly" /\ R.c.k = "zm" /\ R.c.m < 2)
                    ELSE CASE R.k = "zm" -> R.m < 2
                           [] R.k = "quot" -> Deg(R.c, R.m) < 1
InRange(f, R, n, x) ==
  IF Raw(f) THEN \A b \in Range0(x) : b >= 0 /\ b < Width(f)
  ELSE LET v == Dec(R, x) IN WF(R, v) /\ (f = "poly" => Deg(R, v) = n)

\* ---- coverage: independent coordinates of a uniform element, and their bases
RECURSIVE Coords(_, _, _)
Coords(R, v, cnt) ==                    \* cnt coordinates of v in R.c
  CASE R.k = "zm" -> <<v>>
    [] R.k = "f2p" -> [i \in 1..cnt |-> IF (i - 1) \in v THEN 1 ELSE 0]
    [] R.k = "poly" -> IF R.c.k = "zm" THEN [i \in 1..cnt |-> IF i <= Len(v) THEN v[i] ELSE 0]
                       ELSE FoldLeft(LAMBDA acc, i : acc \o Coords(R.c, Coef(R, v, i - 1), 0), <<>>, [i \in 1..cnt |-> i])
    [] R.k = "quot" -> Coords(R.c, v, Deg(R.c, R.m))
CoordsOf(f, R, n, x) ==
  IF Raw(f) THEN LET S == Range0(x) IN [i \in 1..Width(f) |-> IF (i - 1) \in S THEN 1 ELSE 0]
  ELSE Coords(R, Dec(R, x), n)
Base(f, R) == IF Raw(f) THEN 2 ELSE IF R.k = "zm" THEN R.m ELSE Char(R)

Covers(f, R, n, r) ==
  LET N == Len(r)
      b == Base(f, R)
      C == TLCEval([k \in 1..N |-> TLCEval(CoordsOf(f, R, n, r[k]))])
      w == Len(C[1])
      Full2(S) == b > 100 \/ N <= 20 * b * b \/ Cardinality(S) = b * b
  IN (b > 1000000 \/ N <= 20 * b) \/
     \A i \in 1..w :
       /\ Cardinality({C[k][i] : k \in 1..N}) = b
       /\ (i > 1 => Full2({<<C[k][i - 1], C[k][i]>> : k \in 1..N}))
       /\ (i > 2 => Full2({<<C[k][1], C[k][i]>> : k \in 1..N}))
       /\ (w = 64 /\ i > 32 => Full2({<<C[k][i - 32], C[k][i]>> : k \in 1..N}))
       /\ Full2({<<C[k][i], C[k + 1][i]>> : k \in 1..(N - 1)})

\* the leading coefficient is drawn among the elements other than zero
LeadCovers(f, R, n, r) ==
  (f = "poly" /\ R.k = "poly" /\ Len(r) > 20 * Base(f, R)) =>
     LET L == TLCEval([k \in DOMAIN r |-> TLCEval(Coef(R, Dec(R, r[k]), n))]) IN
     IF R.c.k = "zm" THEN {L[k] : k \in DOMAIN L} = 1..(R.c.m - 1)
     ELSE (Deg(R.c.c, R.c.m) > 1 /\ Len(r) >= 90) =>
            LET w == Deg(R.c.c, R.c.m)
                C == TLCEval([k \in DOMAIN L |-> TLCEval(Coords(R.c, L[k], w))])
            IN /\ \A i \in 1..w : {C[k][i] : k \in DOMAIN C} = {0, 1}
               /\ w = 2 => Cardinality({C[k] : k \in DOMAIN C}) = 3

\* ---- the machine
Call(e) == [e EXCEPT !.r = 0, !.x = 0]
Repro(z, c, r) ==                   \* agrees with every earlier run of the same seed and calls
  \A p \in Range0(z.past) :
    (/\ p.seed = z.seed /\ Len(p.calls) > Len(z.calls)
     /\ SubSeq(p.calls, 1, Len(z.calls)) = z.calls /\ p.calls[Len(z.calls) + 1] = c)
    => p.res[Len(z.calls) + 1] = r
Note(z, e) == IF z.seed = <<>> THEN z
              ELSE [z EXCEPT !.calls = Append(@, Call(e)), !.res = Append(@, e.r)]
Seeded(z, st) == [z EXCEPT !.gen = st, !.seed = st, !.calls = <<>>, !.res = <<>>,
                           !.past = IF z.seed = <<>> THEN @ ELSE Append(@, [seed |-> z.seed, calls |-> z.calls, res |-> z.res])]

\* <<permitted, next state>>
RandStep(z, e) ==
  LET ok == e.x = 0
      q == z.reg[e.a]
      RegTo(s) == [z EXCEPT !.reg[e.a] = s]
      Known == z.gen # <<>>
      Out == Hash(z.gen, 16)
      Adv == [z EXCEPT !.gen = Step(z.gen, 16)]
      Shared(match, back) ==            \* a direct read of the shared generator
        IF Known THEN <<ok /\ match /\ Repro(z, Call(e), e.r), Note(Adv, e)>>
        ELSE <<ok /\ Repro(z, Call(e), e.r), Note([z EXCEPT !.gen = back], e)>>
  IN CASE e.op = "seed" -> <<ok, Seeded(z, <<ZeroW, e.w[2]>>)>>
       [] e.op = "seedb" -> <<ok, Seeded(z, e.w)>>
       [] e.op = "seedtod" -> <<ok, [Seeded(z, <<>>) EXCEPT !.seed = <<>>]>>
       [] e.op = "hash" -> <<ok /\ e.r = Hash(e.w, 16), z>>
       [] e.op = "i32" -> Shared(Known /\ e.r = Low(Out), <<>>)
       [] e.op = "i64" -> Shared(Known /\ e.r = Out, Step(UnHash(e.r, 16), 16))
       [] e.op = "f32" -> Shared(IF Known THEN e.r = Frac23(Low(Out)) ELSE e.r >= 0, <<>>)
       [] e.op = "rset" -> <<ok /\ e.st = e.w, RegTo(e.w)>>
       [] e.op = "rtod" -> <<ok, RegTo(e.st)>>
       [] e.op = "ri32" -> <<ok /\ e.st = Step(q, 16) /\ e.r = Low(Hash(q, 16)), RegTo(Step(q, 16))>>
       [] e.op = "ri64" -> <<ok /\ e.st = Step(q, 16) /\ e.r = Hash(q, 16), RegTo(Step(q, 16))>>
       [] e.op = "rf32" -> <<ok /\ e.st = Step(q, 16) /\ e.r = Frac23(Low(Hash(q, 16))), RegTo(Step(q, 16))>>
       [] e.op = "draw" ->
            LET R == IF Raw(e.f) THEN BitRing(0) ELSE RingOf(e.ring)
            IN IF ~Raw(e.f) /\ Refused(e.f, R, e.n) THEN <<e.x = 1, [z EXCEPT !.gen = <<>>, !.seed = <<>>]>>
               ELSE <<ok /\ Len(e.r) = e.N /\ (\A k \in DOMAIN e.r : InRange(e.f, R, e.n, e.r[k]))
                      /\ Repro(z, Call(e), e.r) /\ (e.N > 0 => (Covers(e.f, R, e.n, e.r) /\ LeadCovers(e.f, R, e.n, e.r))),
                      Note([z EXCEPT !.gen = <<>>], e)>>
       [] OTHER -> <<FALSE, z>>
=============================================================================
