----------------------------- MODULE StackTrace -----------------------------
(* Recorded histories of stacks and calls of the tokenizer.                 *)
EXTENDS StackMachine, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, z
vars == <<s, i, z>>
Init == s \in DOMAIN Sessions /\ i = 0 /\ z = NoStacks
Next ==
  /\ i < Len(Sessions[s].ev)
  /\ LET e == Sessions[s].ev[i + 1]
         p == IF Sessions[s].k = "stack" THEN StackStep(z, e) ELSE <<e.x = 0 /\ TokPermit(e), z>>
     IN /\ (~p[1] => PrintT("REJECT " \o ToString(Sessions[s].s) \o " " \o ToString(i) \o " " \o e.op))
        /\ z' = p[2]
  /\ i' = i + 1
  /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
