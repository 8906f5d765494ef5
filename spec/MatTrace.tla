------------------------------ MODULE MatTrace ------------------------------
(* Trace validation for the vector and matrix machine.                      *)
EXTENDS MatMachine, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, i, V, M
vars == <<s, i, V, M>>

Init == s \in DOMAIN Sessions /\ i = 0 /\ V = <<>> /\ M = <<>>

WFV(R, v) == \A k \in DOMAIN v : WF(R, v[k])
WFM(R, m) == \A k \in DOMAIN m : WFV(R, m[k]) /\ Len(m[k]) = Len(m[1])
Next ==
  /\ i < Len(Sessions[s].ev)
  /\ LET R   == RingOf(Sessions[s].ring)
         e   == Sessions[s].ev[i + 1]
         oV  == TLCEval([k \in DOMAIN e.o[1] |-> DecV(R, e.o[1][k])])
         oM  == TLCEval([k \in DOMAIN e.o[2] |-> DecM(R, e.o[2][k])])
         wf  == (\A k \in DOMAIN oV : WFV(R, oV[k])) /\ (\A k \in DOMAIN oM : WFM(R, oM[k]))
         st  == MatStep(R, V, M, e, oV, oM, Sessions[s].k = "bits")
         good == wf /\ st.ok /\ st.V = oV /\ st.M = oM
     IN /\ (~good => PrintT("REJECT " \o ToString(Sessions[s].s) \o " " \o ToString(i) \o " " \o e.op
                               \o " ok=" \o (IF wf THEN ToString(st.ok) ELSE "-") \o " wf=" \o ToString(wf)
                               \o IF wf THEN "" ELSE " STOP"))
        /\ V' = IF good THEN st.V ELSE oV
        /\ M' = IF good THEN st.M ELSE oM
        /\ i' = IF wf THEN i + 1 ELSE Len(Sessions[s].ev)
  /\ s' = s

Spec == Init /\ [][Next]_vars
=============================================================================
