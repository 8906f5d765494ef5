------------------------------- MODULE SpiffGen -------------------------------
(***************************************************************************)
(* Every argument list of the spiff commands over a few tokens per ring     *)
(* family, up to a length; and every bracketed command line over a few      *)
(* words, where calling the innermost pair first must come to the same as   *)
(* evaluating the whole line recursively.                                   *)
(***************************************************************************)
EXTENDS Spiff, Json, IOUtils
Kind == IOEnv.KIND
Big == IOEnv.SIZE = "big"
Nested == Kind = "nest"
Toks ==
  CASE Kind = "z" -> <<"12", "7", "-4", "0", "-e", "x">>
    [] Kind = "q" -> <<"3/4", "-2", "0", "*", "x">>
    [] Kind = "q_p" -> <<"1,1/2", "12", "-3", "+", "x">>
    [] Kind = "f2" -> <<"1", "0", "+", "A", "x">>
    [] Kind = "f2_p" -> <<"b", "6", "1", "0", "2", "-e", "A">>
    [] Kind = "f2_pm" -> <<"7", "6", "3", "2", "0", "*", "A">>
    [] Kind = "f2_pr" -> <<"3/2", "1", "0/3", "/", "x">>
    [] Kind = "f2n_p" -> <<"7", "1:2:1", "1:0", "0", "2", "-e">>
    [] Kind = "f2n_pm" -> <<"7", "1:1:2", "1:3", "2", "0", "+">>
    [] Kind = "f2n_pr" -> <<"7", "1:2/1", "2", "0", "*">>
    [] Kind = "fp" -> <<"5", "6", "3", "0", "-1", "*">>
    [] Kind = "fp_p" -> <<"3", "121", "12", "0", "2", "-e">>
    [] Kind = "fp_pm" -> <<"3", "101", "12", "2", "0", "-">>
    [] Kind = "fp_pr" -> <<"5", "12/1", "3", "0", "/">>
    [] Kind = "fpn_p" -> <<"3", "101", "1:12", "2", "0", "*">>
    [] Kind = "fpn_pm" -> <<"3", "101", "1:0:12", "2:1", "0", "*">>
    [] Kind = "nest" -> <<"{", "}", "z_gcd", "z_op", "12", "8", "-">>
MaxLen == IF Nested THEN (IF Big THEN 7 ELSE 5)
          ELSE Arity(Kind) + (IF Big THEN 3 ELSE 2)
Commands == IF Nested THEN <<"">> ELSE LET own == SelectSeq(Inventory, LAMBDA r : r[2] = Kind) IN [i \in DOMAIN own |-> own[i][1]]
Files == [A |-> IF Kind \in {"fpn_pm", "f2n_pm"} THEN "1 0\n1 1:1\n" ELSE "1 1\n0 1\n"]
Input == "0 1\n1 1\n"
VARIABLES cmd, args, done
gvars == <<cmd, args, done>>
Init == cmd \in DOMAIN Commands /\ args = <<>> /\ done = FALSE
Call(j) == [op |-> "cli", a |-> <<Commands[cmd]>> \o Append(args, Toks[j]), in |-> Input]
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED <<cmd, args>>
        /\ IF Nested
           THEN PrintT("SESSION " \o ToJson([files |-> Files, ops |-> [j \in DOMAIN Toks |-> [op |-> "nest", a |-> <<"z_gcd">> \o Append(args, Toks[j])]]]))
           ELSE PrintT("SESSION " \o ToJson([files |-> Files, ops |-> [j \in DOMAIN Toks |-> Call(j)]]))
Grow == ~done /\ Len(args) < MaxLen - 1 /\ \E j \in DOMAIN Toks : args' = Append(args, Toks[j]) /\ UNCHANGED <<cmd, done>>
Spec == Init /\ [][Emit \/ Grow]_gvars

\* ---- laws --------------------------------------------------------------------
Code(t) == CASE t = "{" -> OPEN [] t = "}" -> CLOSE [] t = "z_gcd" -> <<103>> [] t = "z_op" -> <<111>>
             [] t = "12" -> <<49>> [] t = "8" -> <<56>> [] OTHER -> <<45>>
Line == [i \in DOMAIN args |-> Code(args[i])]
\* a command whose output tells its arguments and their order apart, of 0, 1 or more words
RECURSIVE Spaced(_)
Spaced(ws) == IF ws = <<>> THEN <<NL>> ELSE Head(ws) \o <<SPACE>> \o Spaced(Tail(ws))
Fake(ws) == IF ws = <<>> \/ Head(ws) = <<45>> THEN <<>>
            ELSE Spaced(<<<<97>> \o FoldLeft(LAMBDA acc, w : acc \o w, <<>>, ws) \o <<98>>>> \o (IF Len(ws) > 1 THEN Tail(ws) ELSE <<>>))
RECURSIVE Whole(_)
\* where the bracket opened before place i at depth d closes
Closing(v, i) == CHOOSE j \in (i + 1)..Len(v) :
                   /\ v[j] = CLOSE
                   /\ LET n(k) == Cardinality({ x \in (i + 1)..k : v[x] = OPEN }) - Cardinality({ x \in (i + 1)..k : v[x] = CLOSE })
                      IN n(j) = -1 /\ \A k \in (i + 1)..(j - 1) : n(k) >= 0
Whole(v) == IF v = <<>> THEN <<>>
            ELSE IF Head(v) # OPEN THEN <<Head(v)>> \o Whole(Tail(v))
            ELSE LET j == Closing(v, 1)
                 IN Words(Fake(Whole(SubSeq(v, 2, j - 1)))) \o Whole(Rest(v, j))
RECURSIVE Steps(_)
Steps(v) == IF ~HasNest(v) THEN <<<<v, Fake(v)>>>>
            ELSE LET w == InnerOf(v) IN <<<<w, Fake(w)>>>> \o Steps(Substitute(v, Fake(w)))
Innermost == (Nested /\ done /\ ~Unbalanced(Line)) =>
               LET r == Steps(Line) IN NestOk(Line, r) /\ r[Len(r)][1] = Whole(Line)
Balanced == (Nested /\ done) =>
              (Unbalanced(Line) <=> \/ Cardinality({ i \in DOMAIN Line : Line[i] = OPEN }) # Cardinality({ i \in DOMAIN Line : Line[i] = CLOSE })
                                    \/ \E i \in DOMAIN Line : Cardinality({ k \in 1..i : Line[k] = OPEN }) < Cardinality({ k \in 1..i : Line[k] = CLOSE }))
\* names are not repeated
Unique == ~done => Cardinality(Names) = Len(Inventory)
=============================================================================
