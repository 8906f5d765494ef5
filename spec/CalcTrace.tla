------------------------------ MODULE CalcTrace ------------------------------
(* Trace validation for the calculators called in-process.                   *)
EXTENDS Calc, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i
vars == <<s, i>>
Init == s \in DOMAIN Sessions /\ i = 0
Next ==
  /\ i < Len(Sessions[s].ev)
  /\ LET S == Sessions[s]
         e == S.ev[i + 1]
         c == [R |-> RingOf(S.ring), K |-> S.mode, fld |-> S.fld = 1, files |-> <<>>]
         ok == e.op = "calc" /\ Accept(c, e.v, e.x = 1, e.r)
     IN (~ok => PrintT("REJECT " \o ToString(S.s) \o " " \o ToString(i) \o " " \o e.op))
  /\ i' = i + 1
  /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
