------------------------------ MODULE RingWalk ------------------------------
(***************************************************************************)
(* Random behaviours of the register machine over the rings of RingGen,    *)
(* generated by TLC in simulation mode and emitted as sessions to replay.  *)
(***************************************************************************)
EXTENDS RingGen

VARIABLES wsc, regs, hist, init, fin
wvars == <<wsc, regs, hist, init, fin, sc, a, b, done>>
Heavy == Kind \in {"fpnpm", "f2npm", "f2npr", "fppr", "fpnp", "f2np"}
Depth == IF Heavy THEN 9 ELSE 14
W == Scope[wsc][1]
WDom == Scope[wsc][2]

WOps == {"add", "sub", "mul", "div", "iadd", "isub", "imul", "idiv", "neg", "exp", "asg", "copy", "set", "mod"}
        \ (IF Kind = "bit" \/ Kind = "qp" THEN {"exp"} ELSE {})
\* what the bounded integers of the model (and of the code) can take
SmallQ(v) == Abs(v[1]) <= 200 /\ Abs(v[2]) <= 200
Small(v) == CASE Kind = "q" -> SmallQ(v)
              [] Kind = "qp" -> Len(v) <= 4 /\ \A i \in DOMAIN v : Abs(v[i][1]) <= 12 /\ v[i][2] <= 4
              [] Kind = "f2p" -> MaxOf(v) <= 24
              [] W.k = "poly" -> Len(v) <= 7
              [] Kind = "f2pr" -> MaxOf(v[1]) <= 12 /\ MaxOf(v[2]) <= 12
              [] W.k = "frac" -> Len(v[1]) <= 4 /\ Len(v[2]) <= 4
              [] OTHER -> TRUE
SmallRegs(r) == \A i \in DOMAIN r : Small(r[i])

WInit == /\ wsc \in DOMAIN Scope
         /\ regs = [i \in 1..3 |-> RandomElement(WDom)]
         /\ init = regs /\ hist = <<>> /\ fin = FALSE
         /\ sc = 1 /\ a = 0 /\ b = 0 /\ done = FALSE
WNext ==
  \/ /\ Len(hist) < Depth
     /\ LET v == RandomElement(WDom)
            e == [op |-> RandomElement(WOps), d |-> RandomElement(1..3), a |-> RandomElement(1..3),
                  b |-> RandomElement(1..3), n |-> RandomElement((-2)..3), v |-> Enc(W, v), x |-> 0, r |-> 0, o |-> <<>>]
            st == Step(W, regs, e, regs)
            f == [e EXCEPT !.op = "set"]
            go(w, nregs) == /\ regs' = nregs
                            /\ hist' = Append(hist, [op |-> w.op, d |-> w.d, a |-> w.a, b |-> w.b, n |-> w.n, v |-> w.v])
        IN IF SmallRegs(st.regs) THEN go(e, st.regs) ELSE go(f, [regs EXCEPT ![f.d] = v])
     /\ UNCHANGED <<wsc, init, fin, sc, a, b, done>>
  \/ /\ Len(hist) = Depth /\ ~fin /\ fin' = TRUE
     /\ PrintT("SESSION " \o ToJson([k |-> Kind, ring |-> EncRing(W),
                                     init |-> [i \in 1..3 |-> Enc(W, init[i])], ops |-> hist]))
     /\ UNCHANGED <<wsc, regs, hist, init, sc, a, b, done>>
WSpec == WInit /\ [][WNext]_wvars

RegsWF == \A i \in DOMAIN regs : W.k # "frac" => WF(W, regs[i])
=============================================================================
