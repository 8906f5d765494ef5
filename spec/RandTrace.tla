------------------------------ MODULE RandTrace -----------------------------
(* Every recorded history of the generator is a behaviour of RandMachine.   *)
EXTENDS RandMachine, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, z
vars == <<s, i, z>>
Init == s \in DOMAIN Sessions /\ i = 0 /\ z = Z0
Next ==
  /\ i < Len(Sessions[s].ev)
  /\ LET p == RandStep(z, Sessions[s].ev[i + 1])
     IN /\ (~p[1] => PrintT("REJECT " \o ToString(Sessions[s].s) \o " " \o ToString(i) \o " " \o Sessions[s].ev[i + 1].op))
        /\ z' = p[2]
  /\ i' = i + 1
  /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
