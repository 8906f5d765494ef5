------------------------------- MODULE TextGen -------------------------------
(***************************************************************************)
(* Every text over a small alphabet, up to a length: one state per text,   *)
(* printing the calls that read it.  Invariants: printing is a right       *)
(* inverse of reading wherever reading is defined, and stable.             *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils
Kind == IOEnv.KIND
Big == IOEnv.SIZE = "big"
Zm(m) == [k |-> "zm", m |-> m]
PolyJ(c) == [k |-> "poly", c |-> c]
F2Q(m) == [k |-> "quot", c |-> [k |-> "f2p"], m |-> m]
FpQ(p, m) == [k |-> "quot", c |-> PolyJ(Zm(p)), m |-> m]
FracJ(c) == [k |-> "frac", c |-> c]
RJ ==
  CASE Kind = "im" -> Zm(7)
    [] Kind = "bit" -> Zm(2)
    [] Kind = "q" -> [k |-> "q"]
    [] Kind = "f2p" -> [k |-> "f2p"]
    [] Kind = "fpp3" -> PolyJ(Zm(3))
    [] Kind = "fpp11" -> PolyJ(Zm(11))
    [] Kind = "qp" -> PolyJ([k |-> "q"])
    [] Kind = "f2np" -> PolyJ(F2Q(<<0, 1, 2>>))
    [] Kind = "fpnp" -> PolyJ(FpQ(3, <<1, 0, 1>>))
    [] Kind = "f2pm" -> F2Q(<<0, 1, 4>>)
    [] Kind = "fppm" -> FpQ(5, <<2, 0, 1>>)
    [] Kind = "f2npm" -> [k |-> "quot", c |-> PolyJ(F2Q(<<0, 1, 2>>)), m |-> <<<<1>>, <<0>>, <<0>>>>]
    [] Kind = "fpnpm" -> [k |-> "quot", c |-> PolyJ(FpQ(3, <<1, 0, 1>>)), m |-> <<<<0, 1>>, <<>>, <<1>>>>]
    [] Kind = "f2pr" -> FracJ([k |-> "f2p"])
    [] Kind = "fppr" -> FracJ(PolyJ(Zm(5)))
    [] Kind = "f2npr" -> FracJ(PolyJ(F2Q(<<0, 1, 2>>)))
Driver == CASE Kind \in {"fpp3", "fpp11"} -> "fpp" [] OTHER -> Kind
R == RingOf(RJ)
Scans == Kind \notin {"fppm", "f2npm", "fpnpm"}     \* these extract from string streams only
Chars ==
  CASE Kind \in {"im", "bit"} -> <<48, 55, 57, 45, 32, 97, 47>>
    [] Kind = "q" -> <<48, 54, 52, 45, 47, 32, 97>>
    [] Kind \in {"f2p", "f2pm"} -> <<48, 49, 97, 70, 103, 32, 45, 47>>
    [] Kind \in {"fpp3", "fppm"} -> <<48, 49, 52, 44, 45, 32, 97>>
    [] Kind = "fpp11" -> <<48, 49, 52, 44, 45, 32, 97>>
    [] Kind = "qp" -> <<48, 51, 44, 45, 32, 97, 47>>
    [] Kind \in {"f2np", "fpnp", "f2npm", "fpnpm"} -> <<48, 50, 51, 58, 32, 103, 45>>
    [] Kind = "f2pr" -> <<48, 49, 98, 47, 32, 103, 45>>
    [] Kind = "fppr" -> <<48, 49, 52, 47, 32, 103, 45>>
    [] Kind = "f2npr" -> <<48, 49, 50, 58, 47, 32, 103>>
MaxLen == IF Big THEN 5 ELSE 3
RECURSIVE Enc(_, _)
Enc(S, v) == CASE S.k \in {"z", "zm", "q"} -> v
               [] S.k = "f2p" -> SetToSortSeq(v, <)
               [] S.k = "poly" -> [i \in DOMAIN v |-> Enc(S.c, v[i])]
               [] S.k = "quot" -> Enc(S.c, v)
               [] S.k = "frac" -> <<Enc(S.c, v[1]), Enc(S.c, v[2])>>
VARIABLES t, done
gvars == <<t, done>>
Init == t = <<>> /\ done = FALSE
ReadCall(o, x) == [op |-> o, a |-> 1, b |-> 1, d |-> 2, v |-> x]
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("SESSION " \o ToJson([k |-> Driver, ring |-> RJ,
             init |-> <<Enc(R, One(R)), Enc(R, One(R))>>,
             ops |-> [j \in DOMAIN Chars |-> ReadCall("parse", Append(t, Chars[j]))]
                     \o [j \in DOMAIN Chars |-> ReadCall("scan", Append(t, Chars[j]))]
                     \o [j \in 1..(IF Scans THEN Len(Chars) ELSE 0) |-> ReadCall("scani", Append(t, Chars[j]))]
                     \o [j \in 1..(IF Scans THEN Len(Chars) ELSE 0) |-> ReadCall("scani", Append(t, Chars[j]) \o <<SPACE, 49>>)]]))
Grow == ~done /\ Len(t) < MaxLen /\ \E j \in DOMAIN Chars : t' = Append(t, Chars[j]) /\ UNCHANGED done
Spec == Init /\ [][Emit \/ Grow]_gvars
RoundTrip == (done /\ t # <<>>) =>
  LET p == ParseText(R, t) IN
  p.ok => IF R.k = "poly" /\ R.c.k = "q" THEN (Len(p.v) # 1 \/ p.v[1][2] # 1 \/ p.v[1][1] < 10) => ParseText(R, PrintText(R, p.v)) = p
          ELSE LET q == ParseText(R, PrintText(R, p.v)) IN q.ok /\ Eq(R, q.v, p.v)
Consistent == (done /\ t # <<>>) => ((Reading(R, t) = "ok") => ParseText(R, t).ok)
                                  /\ ((Reading(R, t) = "bad") => ~ParseText(R, t).ok)
Blank == (done /\ t # <<>>) => ParseText(R, <<SPACE>> \o t) = ParseText(R, t)
=============================================================================
