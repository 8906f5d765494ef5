------------------------------- MODULE BagGen -------------------------------
(* All short histories of two tfacinfo objects: laws of the bag, and every  *)
(* maximal history printed as a session for the real code.                  *)
EXTENDS BagMachine, Json, IOUtils
Depth == IF IOEnv.SIZE = "big" THEN 5 ELSE 4
R0 == [k |-> "z"]
VARIABLES regs, hist
gvars == <<regs, hist>>
Op(o, i, j, f, c) == [op |-> o, i |-> i, j |-> j, f |-> f, c |-> c, x |-> 0]
Muts == { Op("factor", i, 0, f, c) : i \in {0, 1}, f \in {2, 3}, c \in {1, 2} }
        \cup { Op("unit", i, 0, -1, 0) : i \in {0, 1} }
        \cup { Op("merge", i, j, 0, 0) : i \in {0, 1}, j \in {0, 1} }
        \cup { Op("assign", i, j, 0, 0) : i \in {0, 1}, j \in {0, 1} }
        \cup { Op("copy", 0, 1, 0, 0), Op("expall", 0, 0, 0, 2), Op("expall", 1, 0, 0, 3), Op("clear", 0, 0, 0, 0) }
Ask == <<Op("unfactor", 0, 0, 0, 0), Op("divs", 0, 0, 0, 0), Op("mpds", 1, 0, 0, 0), Op("ndivs", 1, 0, 0, 0), Op("str", 0, 0, 0, 0), Op("ith", 0, 0, 0, 1)>>
Init == regs = <<NoFactors, NoFactors>> /\ hist = <<>>
Small(b) == Total(b) <= 6
Next == /\ Len(hist) < Depth
        /\ \E m \in Muts : LET st == BagStep(R0, regs, m)
                           IN st.ok /\ Small(st.regs[1]) /\ Small(st.regs[2]) /\ regs' = st.regs /\ hist' = Append(hist, m)
        /\ (Len(hist) = Depth - 1 => PrintT("SESSION " \o ToJson([k |-> "bag", ring |-> R0, n |-> 2, ops |-> hist' \o Ask])))
Spec == Init /\ [][Next]_gvars
View == regs
Sorted1 == \A r \in DOMAIN regs : Ascending(R0, [n \in DOMAIN regs[r].fs |-> regs[r].fs[n][1]])
\* counting is what the bag of its divisors says
DivLaw == \A r \in DOMAIN regs : LET b == regs[r] IN
   Cardinality(SubBags(b)) = FoldLeft(LAMBDA acc, p : acc * (p[2] + 1), 1, b.fs)
MergeLaw == Product(R0, Merge(R0, regs[1], regs[2])) = Product(R0, regs[1]) * Product(R0, regs[2])
            /\ Merge(R0, regs[1], regs[2]).fs = Merge(R0, regs[2], regs[1]).fs
=============================================================================
