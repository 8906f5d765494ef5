------------------------------ MODULE CycTrace ------------------------------
(* Every recorded call returned a permitted value.                          *)
EXTENDS CycMath, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i
vars == <<s, i>>
Init == s \in DOMAIN Sessions /\ i = 0
Next ==
  /\ i < Len(Sessions[s].ev)
  /\ (~CycPermit(Sessions[s].ev[i + 1]) =>
        PrintT("REJECT " \o ToString(Sessions[s].s) \o " " \o ToString(i) \o " " \o Sessions[s].ev[i + 1].op))
  /\ i' = i + 1
  /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
