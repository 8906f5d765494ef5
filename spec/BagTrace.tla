------------------------------ MODULE BagTrace ------------------------------
(* Every recorded session of tfacinfo calls is a behaviour of BagMachine.    *)
EXTENDS BagMachine, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, regs
vars == <<s, i, regs>>
Init == s \in DOMAIN Sessions /\ i = 0 /\ regs = <<>>
Next ==
  /\ i < Len(Sessions[s].ev)
  /\ LET R == RingOf(Sessions[s].ring)
         e == Sessions[s].ev[i + 1]
         st == IF e.op \in {"crash", "hang"} THEN [ok |-> FALSE, regs |-> regs] ELSE BagStep(R, regs, e)
         good == st.ok /\ Len(e.o) = Len(st.regs) /\ \A n \in DOMAIN st.regs : Shows(R, st.regs[n], e.o[n])
     IN /\ (~good => PrintT("REJECT " \o ToString(Sessions[s].s) \o " " \o ToString(i) \o " " \o e.op \o " STOP"))
        /\ regs' = st.regs
        /\ i' = IF good THEN i + 1 ELSE Len(Sessions[s].ev)
  /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
