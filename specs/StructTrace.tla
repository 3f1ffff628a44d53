---------------------------- MODULE StructTrace ----------------------------
(* Recorded histories of a structure: built, loaded step by step, solved.      *)
EXTENDS Structure, TraceBase
VARIABLES str,       \* the structure
          ok,        \* it stands: supported, hanging together, no loose node
          load,      \* doubled forces per degree of freedom, times 1000
          disp,      \* the displacements last returned [u, sc], u = <<>> before
          shown,     \* the stresses last returned [s, sc, div]
          freq       \* squares of the angular frequencies, the longest list so far
vars == <<str, ok, load, disp, shown, freq, c, l>>
None == [u |-> <<>>, sc |-> 1]
NoStress == [s |-> <<>>, sc |-> 1]
NoStr == Make(<<>>, <<>>, [c |-> "stress", t |-> 1, e |-> 6, p |-> 0, q |-> 1, rho |-> 24], <<>>)

EModel == /\ Is("model") /\ E.res = "ok"
          /\ LET s0 == Make(E.nodes, E.els, E.m, E.cons)
                 s == IF E.m.c = "axi" THEN [s0 EXCEPT !.k = E.k, !.mm = E.mm, !.ksc = E.ksc, !.msc = E.msc] ELSE s0 IN
             /\ WellFormed(s) = TRUE
             /\ str' = s
             /\ ok' = (Supported(s) /\ NoLooseNode(s) /\ HangsTogether(s))
             /\ load' = NoLoad(s)
          /\ disp' = None /\ shown' = NoStress /\ freq' = <<>>
Ok(s) == Supported(s) /\ NoLooseNode(s) /\ HangsTogether(s)
(* it changes after it was solved: another support, node or element; what was returned before does not matter any more *)
Forget == disp' = None /\ shown' = NoStress /\ freq' = <<>>
EGrow(s) == str' = s /\ ok' = Ok(s) /\ Forget
ESupport == /\ Is("support") /\ E.res = "ok"
            /\ str.m.c # "axi"
            /\ (str.cons[E.n + 1].k = "angle" /\ E.con.k = "angle" => str.cons[E.n + 1].t = E.con.t) = TRUE
            /\ EGrow(MoreSupport(str, E.n + 1, E.con)) /\ UNCHANGED load
ENode == /\ Is("node") /\ E.res = "ok" /\ str.m.c # "axi"
         /\ EGrow(MoreNode(str, E.p, [k |-> "free", t |-> <<0, 1, 1>>]))
         /\ load' = load \o <<0, 0>>
EElement == /\ Is("element") /\ E.res = "ok" /\ str.m.c # "axi"
            /\ WellFormed(MoreElement(str, E.e)) = TRUE
            /\ EGrow(MoreElement(str, E.e)) /\ UNCHANGED load
(* loads accumulate *)
EForce == /\ Is("force") /\ E.res = "ok"
          /\ load' = AddForce(load, E.n, E.f) /\ UNCHANGED <<str, ok, disp, shown, freq>>
EEdgeForce == /\ Is("edgeforce") /\ E.res = "ok"
              /\ load' = AddEdgeForce(str, load, E.a, E.b, E.f) /\ UNCHANGED <<str, ok, disp, shown, freq>>
EEdgeTotal == /\ Is("edgetotal") /\ E.res = "ok" /\ IsEdge(str, E.a, E.b) = TRUE
              /\ load' = AddEdgeTotal(load, E.a, E.b, E.f) /\ UNCHANGED <<str, ok, disp, shown, freq>>
(* a direct solver answers with the displacements that balance the loads *)
ESolve == /\ Is("solve")
          /\ ((ok /\ Prop # "C18") => /\ E.res = "ok" /\ Len(E.u) = Len(str.nodes)
                    /\ \A n \in 1..Len(E.u) : Len(E.u[n]) = 2 /\ AllFin(E.u[n])
                    /\ Equilibrium(str, E.u, load, E.sc)
                    /\ \A d \in 1..Dofs(str) : Fixed0(str, d) => E.zero[d]) = TRUE
          /\ disp' = IF ok /\ E.res = "ok" /\ (\A n \in 1..Len(E.u) : AllFin(E.u[n])) THEN [u |-> Flat2(E.u), sc |-> E.sc] ELSE None
          /\ shown' = NoStress
          /\ UNCHANGED <<str, ok, load, freq>>
Keep == UNCHANGED <<str, ok, load, disp, shown, freq>>
Solved == disp.u # <<>>
(* lengths of the displacements, and the displaced nodes at a whole scale *)
EShape == /\ Is("shape") /\ Keep
          /\ (Solved => /\ E.res = "ok"
                        /\ \A n \in 1..Len(str.nodes) :
                             LET x == disp.u[(2 * n) - 1]   y == disp.u[2 * n] IN
                             /\ Near(E.norms[n], ISqrt(Sq(x) + Sq(y)), 2)
                             /\ Near(E.moved[n][1] - (disp.sc * str.nodes[n][1]), E.by * x, 1 + Abs(E.by))
                             /\ Near(E.moved[n][2] - (disp.sc * str.nodes[n][2]), E.by * y, 1 + Abs(E.by))) = TRUE
(* the mean over the elements at a node; logged times sc \div div *)
EStress == /\ Is("stress")
           /\ (Solved => /\ E.res = "ok" /\ Len(E.out) = Len(str.nodes)
                         /\ \A n \in 1..Len(E.out) :
                              IF ElemsAt(str, n - 1) = {} THEN E.out[n] = <<>>
                              ELSE \A w \in {NodeStress(str, n - 1, disp.u)} : \A t \in {NodeStressSlack(str, n - 1)} :
                                   /\ Len(E.out[n]) = Len(w) /\ AllFin(E.out[n])
                                   /\ \A i \in 1..Len(w) : Near(E.out[n][i], RDiv(w[i], E.div), 2 + (t \div E.div))) = TRUE
           /\ shown' = IF Solved THEN [s |-> E.out, sc |-> E.div] ELSE NoStress
           /\ UNCHANGED <<str, ok, load, disp, freq>>
(* the von Mises value of every node belongs to the components reported there *)
EMises == /\ Is("mises") /\ Keep
          /\ (shown.s # <<>> =>
                /\ E.res = "ok" /\ Len(E.out) = Len(str.nodes)
                /\ \A n \in 1..Len(E.out) :
                     IF shown.s[n] = <<>> THEN E.out[n] = 0
                     ELSE Near(E.out[n], ISqrt(Mises2(IF str.m.c = "axi" THEN "axi" ELSE "plane", shown.s[n]) \div 2), 4)) = TRUE
(* a state of constant stress (the loads were its tractions): every element has it *)
EPatch == /\ Is("patch") /\ Keep
          /\ (Solved => \A e \in 1..Len(str.els) : \A t \in {StressSlack(str, e)} :
                \A i \in 1..3 : Near(ElemStressAt(str, e, str.els[e][1], disp.u)[i], disp.sc * E.s[i],
                                     t + 2 + ((disp.sc * Abs(E.s[i])) \div 1000))) = TRUE
(* modes: E.out = sequence of [w, v]; w[1] + w[2] / 10^4 = square of the angular frequency, v shape times 10^4 *)
WLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2] + (3 * (a[1] + 1)))
WNear(a, b) == Near(a[1], b[1], 40000) /\ Abs(((a[1] - b[1]) * 10000) + a[2] - b[2]) <= 100 + ((a[1] + b[1]) * 20)
Modes(out) ==
    /\ \A i \in 1..Len(out) :
         /\ out[i].w[1] \in 0..99999 /\ out[i].w[2] \in 0..9999
         /\ Len(out[i].v) = Len(str.nodes) /\ \A n \in 1..Len(out[i].v) : AllFin(out[i].v[n])
         /\ \A d \in 1..Dofs(str) : Fixed0(str, d) => out[i].zero[d]
         /\ i > 1 => WLess(out[i - 1].w, out[i].w)
    /\ Vibrations(str, out)
EModes == /\ Is("modes")
          /\ (ok => /\ E.res = "ok" /\ Len(E.out) = E.n
                    /\ Modes(E.out)
                    /\ \A i \in 1..Min2(Len(freq), E.n) : WNear(E.out[i].w, freq[i])) = TRUE
          /\ freq' = IF ok /\ (E.n = FreeDofs(str) \/ E.n > Len(freq)) THEN [i \in 1..E.n |-> E.out[i].w] ELSE freq
          /\ UNCHANGED <<str, ok, load, disp, shown>>
Step == EModel \/ ESupport \/ ENode \/ EElement \/ EForce \/ EEdgeForce \/ EEdgeTotal \/ ESolve \/ EShape \/ EStress \/ EMises \/ EPatch \/ EModes
Init == TraceInit /\ str = NoStr /\ ok = FALSE /\ load = <<>> /\ disp = None /\ shown = NoStress /\ freq = <<>>
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ Keep)
Spec == Init /\ [][Next]_vars
Inv == Len(load) = Dofs(str)
=============================================================================
