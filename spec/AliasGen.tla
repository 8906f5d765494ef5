------------------------------ MODULE AliasGen ------------------------------
(***************************************************************************)
(* Every short history of calls over two objects, with every way for the   *)
(* operands to coincide.  The objects' contents are abstract here: each    *)
(* holds an expression over the initial contents, and a copy is a value.   *)
(* Sizes small/big give histories of two and three calls.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Len0 == IF IOEnv.SIZE = "big" THEN 3 ELSE 2
\* calls by the operands they take
Unary == {"asg", "copy", "neg"}                       \* d := f(a)
Update == {"iadd", "isub", "imul", "idiv", "imod"}     \* d := f(d, a)
Binary == {"add", "sub", "mul", "div", "mod"}          \* d := f(a, b)
Reg == 1..2
Calls == { [op |-> o, d |-> d, a |-> a, b |-> 1] : o \in Unary \cup Update, d \in Reg, a \in Reg }
   \cup { [op |-> o, d |-> d, a |-> a, b |-> b] : o \in Binary, d \in Reg, a \in Reg, b \in Reg }
VARIABLES hist, val, done
gvars == <<hist, val, done>>
Init == hist = <<>> /\ val = <<"1", "2">> /\ done = FALSE
\* what the call leaves in its destination, as an expression over the initial contents
Result(v, c) == CASE c.op \in {"asg", "copy"} -> v[c.a]
                  [] c.op = "neg" -> "-(" \o v[c.a] \o ")"
                  [] c.op \in Update -> c.op \o "(" \o v[c.d] \o "," \o v[c.a] \o ")"
                  [] c.op \in Binary -> "i" \o c.op \o "(" \o v[c.a] \o "," \o v[c.b] \o ")"
Do(c) == /\ ~done /\ Len(hist) < Len0
         /\ hist' = Append(hist, c)
         /\ val' = [val EXCEPT ![c.d] = Result(val, c)]
         /\ UNCHANGED done
Emit == /\ ~done /\ Len(hist) = Len0 /\ done' = TRUE /\ UNCHANGED <<hist, val>>
        /\ PrintT("SESSION " \o ToJson([ops |-> hist, val |-> val]))
Spec == Init /\ [][Emit \/ \E c \in Calls : Do(c)]_gvars
\* a call changes its destination only
Frame == [][\A r \in Reg : (val'[r] # val[r]) => hist'[Len(hist')].d = r]_gvars
\* an update is the same as the binary operation on its own object
Same == \A v \in {val} : \A d \in Reg, a \in Reg :
          Result(v, [op |-> "iadd", d |-> d, a |-> a, b |-> 1]) = Result(v, [op |-> "add", d |-> d, a |-> d, b |-> a])
=============================================================================
