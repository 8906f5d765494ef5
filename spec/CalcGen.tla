------------------------------- MODULE CalcGen -------------------------------
(***************************************************************************)
(* Every token list over a small alphabet, up to a length: one state per   *)
(* prefix, printing the calls that extend it by each token.  In each state *)
(* the two definitions of the language's meaning are compared.             *)
(***************************************************************************)
EXTENDS Calc, Json, IOUtils
Kind == IOEnv.KIND
MaxLen == IF IOEnv.SIZE = "big" THEN (IF Kind \in {"z", "zm"} THEN 4 ELSE 3) ELSE IF Kind \in {"z"} THEN 3 ELSE 2
RJ == CASE Kind = "z" -> [k |-> "z"]
        [] Kind \in {"zm", "vec"} -> [k |-> "zm", m |-> 5]
        [] Kind = "mat" -> [k |-> "zm", m |-> 3]
        [] Kind = "f2p" -> [k |-> "f2p"]
        [] Kind = "q" -> [k |-> "q"]
        [] Kind = "f2pm" -> [k |-> "quot", c |-> [k |-> "f2p"], m |-> <<0, 1, 2>>]
Mode == IF Kind \in {"vec", "mat"} THEN Kind ELSE "el"
Plus == <<43>>  Minus == <<45>>  Star == <<42>>  Slash == <<47>>  Pct == <<37>>  Hat == <<94>>
EqEq == <<61, 61>>  Lt == <<60>>  LP == <<40>>  RP == <<41>>
Ops == <<Plus, Minus, Star, Slash, Pct, Hat, EqEq, Lt, LP, RP>>
Alphabet ==
  CASE Kind = "z" -> <<<<55>>, <<45, 50>>, <<48>>>> \o Ops
    [] Kind = "zm" -> <<<<52>>, <<45, 49>>, <<48>>>> \o Ops \o <<<<60, 61>>, <<33, 61>>>>
    [] Kind = "q" -> <<<<51, 47, 50>>, <<45, 50>>, <<48>>>> \o Ops \o <<<<62, 61>>, <<62>>>>
    [] Kind = "f2p" -> <<<<98>>, <<51>>, <<48>>>> \o Ops \o <<<<47, 61>>, <<46>>>>
    [] Kind = "f2pm" -> <<<<50>>, <<51>>, <<48>>>> \o Ops \o <<<<91>>, <<93>>>>
    [] Kind = "vec" -> <<<<91, 49, 32, 50, 93>>, <<91, 51, 32, 52, 93>>, <<91, 49, 93>>, <<50>>>> \o <<Plus, Minus, Star, Hat, EqEq, LP, RP>>
    [] Kind = "mat" -> <<<<91, 91, 49, 32, 50, 93, 91, 48, 32, 49, 93, 93>>, <<91, 91, 49, 32, 50, 93, 91, 50, 32, 49, 93, 93>>, <<91, 49, 32, 50, 93>>, <<50>>, <<45, 49>>>>
                       \o <<Plus, Minus, Star, Hat, EqEq, LP, RP, <<105, 110, 118>>, <<100, 101, 116>>, <<114, 97, 110, 107>>,
                            <<107, 101, 114, 98, 97, 115>>, <<114, 101, 99, 104>>, <<114, 101, 99, 104, 114>>, <<114, 114>>, <<114, 114, 110, 122>>,
                            <<114, 101, 99, 104, 110, 122>>, <<116, 114, 97, 110, 115, 112, 111, 115, 101>>>>
Ctx == [R |-> RingOf(RJ), K |-> Mode, fld |-> TRUE, files |-> <<>>]
VARIABLES ts, done
gvars == <<ts, done>>
Init == ts = <<>> /\ done = FALSE
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED ts
        /\ PrintT("SESSION " \o ToJson([k |-> "calc", ring |-> RJ, mode |-> Mode, fld |-> 1,
             ops |-> [j \in DOMAIN Alphabet |-> [op |-> "calc", v |-> Append(ts, Alphabet[j])]]]))
Grow == ~done /\ Len(ts) < MaxLen /\ \E j \in DOMAIN Alphabet : ts' = Append(ts, Alphabet[j]) /\ UNCHANGED done
Spec == Init /\ [][Emit \/ Grow]_gvars
\* both readings agree wherever the value is determined
Agree == (done /\ ts # <<>>) => LET a == Value(Ctx, ts)  b == ValueLL(Ctx, ts) IN a = b \/ a = ANY \/ b = ANY
\* an expression with a value stays valued inside parentheses (levels 2 and up)
Paren == (done /\ ts # <<>>) =>
           LET a == Value(Ctx, ts)
               top == \A i \in DOMAIN ts : LevOf(OpTok(Mode, ts[i])) \notin {0, 1}
           IN top => Value(Ctx, <<LP>> \o ts \o <<RP>>) = a
=============================================================================
