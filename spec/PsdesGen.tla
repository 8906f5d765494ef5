------------------------------ MODULE PsdesGen ------------------------------
(* Laws of the generator on narrow words (all states), the vectors in       *)
(* psdes.h on full words, and carries at the boundaries.                    *)
EXTENDS Psdes, Json, IOUtils, FiniteSets
H == IF IOEnv.SIZE = "big" THEN 4 ELSE 2
Halves == 0..(2 ^ H - 1)
Num(w) == w[1] * 2 ^ H + w[2]
Num2(st) == Num(st[1]) * 2 ^ (2 * H) + Num(st[2])
VARIABLES st, n
gvars == <<st, n>>
Total == 2 ^ (4 * H)
Init == st = <<ZeroW, ZeroW>> /\ n = 0
Next == n < Total /\ st' = Step(st, H) /\ n' = n + 1
Spec == Init /\ [][Next]_gvars

CountLaw == Num2(st) = n % Total                        \* every state exactly once per period
PermLaw == UnHash(Hash(st, H), H) = st                  \* the hash is a bijection
WidthLaw == \A w \in {Hash(st, H)[1], Hash(st, H)[2]} : w[1] \in Halves /\ w[2] \in Halves
MulLaw == Num(MulH(st[2][1], st[2][2], H)) = st[2][1] * st[2][2]
AddLaw == Num(AddW(st[1], st[2], H)) = (Num(st[1]) + Num(st[2])) % 2 ^ (2 * H)

\* psdes.h: from state 0x00000002fffffffc
Doc == <<<<<<22387, 16112>>, <<39306, 56042>>>>, <<<<58502, 13722>>, <<15961, 61784>>>>,
         <<<<25164, 45928>>, <<3539, 2316>>>>, <<<<24210, 3253>>, <<49091, 5582>>>>,
         <<<<44493, 18926>>, <<63218, 32008>>>>, <<<<30831, 27170>>, <<55263, 30320>>>>>>
RECURSIVE Run(_, _)
Run(s, k) == IF k = 0 THEN <<>> ELSE <<Hash(s, 16)>> \o Run(Step(s, 16), k - 1)
ASSUME Run(<<<<0, 2>>, <<65535, 65532>>>>, 6) = Doc
ASSUME PrintT("SESSION " \o ToJson([k |-> "rand", ops |->
         <<[op |-> "seedb", w |-> <<<<0, 2>>, <<65535, 65532>>>>]>> \o [i \in 1..6 |-> [op |-> "i64"]]
         \o <<[op |-> "rset", a |-> 1, w |-> <<<<65535, 65535>>, <<65535, 65535>>>>], [op |-> "ri32", a |-> 1], [op |-> "ri64", a |-> 1]>>]))
=============================================================================
