----------------------------- MODULE RingTrace -----------------------------
(* Trace validation: every recorded session of the real library must be a  *)
(* behaviour of the register machine.  One TLC behaviour per session; a    *)
(* call whose observed outcome is not permitted is reported and the        *)
(* session continues from the observed state.                              *)
EXTENDS RingMachine, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, i, regs
vars == <<s, i, regs>>

Init == s \in DOMAIN Sessions /\ i = 0 /\ regs = <<>>

DecRegs(R, o) == [k \in DOMAIN o |-> Dec(R, o[k])]
AllWF(R, o) == \A k \in DOMAIN o : WF(R, o[k])

Next ==
  /\ i < Len(Sessions[s].ev)
  /\ LET R   == RingOf(Sessions[s].ring)
         e   == Sessions[s].ev[i + 1]
         obs == DecRegs(R, e.o)
         st  == Step(R, regs, e, obs)
         good == st.ok /\ AllWF(R, obs) /\ SameRegs(R, st.regs, obs)
     IN /\ (~good => PrintT("REJECT " \o ToString(Sessions[s].s) \o " " \o ToString(i) \o " " \o e.op
                               \o " ok=" \o ToString(st.ok) \o " wf=" \o ToString(AllWF(R, obs))
                               \o IF AllWF(R, obs) THEN "" ELSE " STOP"))
        /\ regs' = IF good THEN st.regs ELSE obs
        \* nothing can be said after an ill-formed value: end the session
        /\ i' = IF AllWF(R, obs) THEN i + 1 ELSE Len(Sessions[s].ev)
  /\ s' = s

Spec == Init /\ [][Next]_vars
=============================================================================
