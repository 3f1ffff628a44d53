----------------------------- MODULE Structure -----------------------------
(* A structure: nodes, triangles, material, supports, loads.  What equilibrium *)
(* and vibration mean for it.                                                    *)
(*   nodes  sequence of points            els  sequence of triples of node ids   *)
(*   m, lam material (Elements.tla)       cons per node [k, t] (Constraints.tla) *)
(*   tris   the corner points per element area |A2| per element                  *)
EXTENDS Elements, Constraints, TLC

Make(nodes, els, m, cons) ==
    LET tris == [e \in 1..Len(els) |-> [n \in 1..3 |-> nodes[els[e][n] + 1]]]
        lam == Lam(m)
        (* where degree d occurs: pairs of element and local degree *)
        here == TLCEval([n \in 1..Len(nodes) |-> SelectSeq([e \in 1..Len(els) |-> e], LAMBDA e : \E k \in 1..3 : els[e][k] = n - 1)])
        occ(d) == LET es == here[((d - 1) \div 2) + 1]
                  IN  [t \in 1..Len(es) |-> <<es[t], CHOOSE i \in 1..6 : (2 * els[es[t]][LNode(i)]) + LDim(i) + 1 = d>>]
    IN  [at |-> TLCEval([d \in 1..(2 * Len(nodes)) |-> occ(d)]),
         plane |-> IF m.c = "axi" THEN <<>> ELSE [e \in 1..Len(els) |-> PlaneKMat(tris[e], lam)],
         nodes |-> nodes, els |-> els, m |-> m, lam |-> Lam(m), cons |-> cons, tris |-> tris,
         area |-> [e \in 1..Len(els) |-> Abs(A2(tris[e]))], k |-> <<>>, mm |-> <<>>, ksc |-> 1, msc |-> 1]
(* a structure grows: a further support at a node (Constraints!Merge; two angles only of the same direction), node, element *)
MergeCon(old, new) ==
    CASE new.k = "free" -> old
      [] old.k = "free" -> new
      [] new.k = "angle" -> old
      [] old.k = "angle" -> new
      [] old.k = new.k -> old
      [] OTHER -> [old EXCEPT !.k = "xy"]
MoreSupport(s, n, con) == Make(s.nodes, s.els, s.m, [s.cons EXCEPT ![n] = MergeCon(s.cons[n], con)])
MoreNode(s, p, con) == Make(Append(s.nodes, p), s.els, s.m, Append(s.cons, con))
MoreElement(s, e) == Make(s.nodes, Append(s.els, e), s.m, s.cons)
WellFormed(s) == /\ Len(s.cons) = Len(s.nodes)
                 /\ \A e \in 1..Len(s.els) : /\ s.area[e] # 0
                                             /\ \A n \in 1..3 : s.els[e][n] \in 0..(Len(s.nodes) - 1)
                 /\ \A i \in 1..Len(s.cons) : s.cons[i].k = "angle" => TripleOK(s.cons[i].t)
Dofs(s) == 2 * Len(s.nodes)
(* the global degree of freedom of local degree i of element e *)
GDof(s, e, i) == (2 * s.els[e][LNode(i)]) + LDim(i) + 1
GatherE(s, e, u) == TLCEval([i \in 1..6 |-> u[GDof(s, e, i)]])
NodeDisp(u, n) == <<u[(2 * n) + 1], u[(2 * n) + 2]>>          \* of node id n
ElemDisp(s, e, u) == [n \in 1..3 |-> NodeDisp(u, s.els[e][n])]

(* f at a value that is worked out once *)
Once(f(_), v) == CHOOSE o \in {f(x) : x \in {TLCEval(v)}} : TRUE

(* ---- forces of the elements on the nodes under displacements u ---- *)
(* plane: 2 |A2| / thickness times the force; stiffness of one row i of element e *)
KRow(s, e, i) == s.plane[e][i]
PlaneForce(s, e, u) == Once(LAMBDA ue : TLCEval([i \in 1..6 |-> s.m.t * RDiv(Dot(KRow(s, e, i), ue), 2 * s.area[e])]), GatherE(s, e, u))
(* what an error of 1/2 in every displacement, and the rounding above, can amount to *)
PlaneSlack(s, e) == TLCEval([i \in 1..6 |-> s.m.t * (1 + (SumF(LAMBDA j : Abs(KRow(s, e, i)[j]), 1, 6) \div (4 * s.area[e])))])
(* axisymmetric: from the recorded (and separately checked) element matrices s.k[e], times s.ksc; s.mm[e], times s.msc *)
LoggedForce(s, e, u) == Once(LAMBDA ue : TLCEval([i \in 1..6 |-> RDiv(Dot(s.k[e][i], ue), s.ksc)]), GatherE(s, e, u))
LoggedSlack(s, e, u) == TLCEval([i \in 1..6 |-> 2 + (SumF(LAMBDA j : Abs(s.k[e][i][j]), 1, 6) \div (2 * s.ksc))
                                          + (SumF(LAMBDA j : Abs(u[GDof(s, e, j)]), 1, 6) \div (2 * s.ksc))])
(* sum over the elements, fe[e] being their local vectors *)
AtDof(s, fe, d) == SumF(LAMBDA k : fe[s.at[d][k][1]][s.at[d][k][2]], 1, Len(s.at[d]))
Gather(s, fe) == TLCEval([d \in 1..Dofs(s) |-> AtDof(s, fe, d)])
Forces(s, u) == Once(LAMBDA fe : Gather(s, fe), [e \in 1..Len(s.els) |-> IF s.m.c = "axi" THEN LoggedForce(s, e, u) ELSE PlaneForce(s, e, u)])
Slack(s, u) == Once(LAMBDA fe : Gather(s, fe), [e \in 1..Len(s.els) |-> IF s.m.c = "axi" THEN LoggedSlack(s, e, u) ELSE PlaneSlack(s, e)])
(* ---- M u, for density 24 so that the plane masses are integers ---- *)
PlaneMom(s, e, u) == Once(LAMBDA ue : TLCEval([i \in 1..6 |-> s.m.t * s.area[e] * SumF(LAMBDA j : PlaneM(i, j) * ue[j], 1, 6)]), GatherE(s, e, u))
LoggedMom(s, e, u) == Once(LAMBDA ue : TLCEval([i \in 1..6 |-> RDiv(Dot(s.mm[e][i], ue), s.msc)]), GatherE(s, e, u))
Momenta(s, u) == Once(LAMBDA fe : Gather(s, fe), [e \in 1..Len(s.els) |-> IF s.m.c = "axi" THEN LoggedMom(s, e, u) ELSE PlaneMom(s, e, u)])
LoggedMomSlack(s, e, u) == TLCEval([i \in 1..6 |-> 2 + (SumF(LAMBDA j : Abs(s.mm[e][i][j]), 1, 6) \div (2 * s.msc))
                                             + (SumF(LAMBDA j : Abs(u[GDof(s, e, j)]), 1, 6) \div (2 * s.msc))])
MomSlack(s, u) == Once(LAMBDA fe : Gather(s, fe), [e \in 1..Len(s.els) |->
                        IF s.m.c = "axi" THEN LoggedMomSlack(s, e, u) ELSE [i \in 1..6 |-> 2 * s.m.t * s.area[e]]])

(* ---- supports ---- *)
(* the rigid motions (translation x, y, rotation) that a fixed direction forbids, as rows *)
Rows3(s) ==
    LET at(i) == s.nodes[i]
        row(cx, cy, i) == <<cx, cy, (cy * at(i)[1]) - (cx * at(i)[2])>>
        rows(i) == CASE s.cons[i].k = "x" -> <<row(1, 0, i)>> [] s.cons[i].k = "y" -> <<row(0, 1, i)>>
                     [] s.cons[i].k = "xy" -> <<row(1, 0, i), row(0, 1, i)>>
                     [] s.cons[i].k = "angle" -> <<row(s.cons[i].t[1], s.cons[i].t[2], i)>>
                     [] OTHER -> <<>>
        used == {s.els[e][n] + 1 : e \in 1..Len(s.els), n \in 1..3}
        RECURSIVE all(_)
        all(i) == IF i = 0 THEN <<>> ELSE all(i - 1) \o (IF i \in used THEN rows(i) ELSE <<>>)
    IN  TLCEval(all(Len(s.nodes)))
Det3(a, b, z) == (a[1] * ((b[2] * z[3]) - (b[3] * z[2]))) - (a[2] * ((b[1] * z[3]) - (b[3] * z[1])))
                   + (a[3] * ((b[1] * z[2]) - (b[2] * z[1])))
(* no rigid motion is left, for a structure whose triangles hang together by edges *)
Supported(s) ==
    LET r == Rows3(s) IN
    \E i, j, k \in 1..Len(r) : i < j /\ j < k /\ Det3(r[i], r[j], r[k]) # 0
(* every node belongs to an element or is held *)
NoLooseNode(s) == \A i \in 1..Len(s.nodes) :
    s.cons[i].k = "xy" \/ \E e \in 1..Len(s.els) : \E n \in 1..3 : s.els[e][n] = i - 1
(* triangles hang together by shared edges *)
RECURSIVE Reach(_, _, _)
(* from the elements last reached on to those not reached yet *)
Reach(corners, last, left) ==
    LET nx == TLCEval({f \in left : \E e \in last : Cardinality(corners[e] \cap corners[f]) = 2})
    IN  IF nx = {} THEN left ELSE Reach(corners, nx, left \ nx)
HangsTogether(s) ==
    LET corners == TLCEval([e \in 1..Len(s.els) |-> {s.els[e][n] : n \in 1..3}])
    IN  Len(s.els) > 0 /\ Reach(corners, {1}, 2..Len(s.els)) = {}

(* ---- loads: f is the doubled nodal force times 1000 per degree of freedom ---- *)
NoLoad(s) == [d \in 1..Dofs(s) |-> 0]
AddForce(f, n, v) == [f EXCEPT ![(2 * n) + 1] = @ + (2000 * v[1]), ![(2 * n) + 2] = @ + (2000 * v[2])]
IsEdge(s, a, b) == a # b /\ \E e \in 1..Len(s.els) : {a, b} \subseteq {s.els[e][n] : n \in 1..3}
(* half of (force per length times length) to either end, whatever the number of elements there *)
AddEdgeForce(s, f, a, b, v) ==
    IF ~IsEdge(s, a, b) THEN f
    ELSE LET len == Length1000(s.nodes[a + 1], s.nodes[b + 1]) IN
         [d \in 1..Len(f) |-> f[d] + (IF (d - 1) \div 2 \in {a, b} THEN v[((d - 1) % 2) + 1] * len ELSE 0)]
(* the same with the total v of the edge given *)
AddEdgeTotal(f, a, b, v) == [d \in 1..Len(f) |-> f[d] + (IF (d - 1) \div 2 \in {a, b} THEN 1000 * v[((d - 1) % 2) + 1] ELSE 0)]

(* ---- equilibrium: displacements u (times sc) against loads f ---- *)
Fixed0(s, d) == LET con == s.cons[Node(d)] IN ~Keeps(con, Dim(d)) /\ con.k # "angle"
(* f * sc / 2000 *)
Scaled(f, sc) == IF sc >= 2000 THEN f * (sc \div 2000) ELSE RDiv(f * sc, 2000)
Flat2(v) == [d \in 1..(2 * Len(v)) |-> v[((d - 1) \div 2) + 1][((d - 1) % 2) + 1]]
Balanced(s, con, u, res, tol, n) ==     \* at node n: the residual vanishes in the free directions
    LET x == (2 * n) - 1   y == 2 * n IN
    CASE con.k = "xy" -> u[x] = 0 /\ u[y] = 0
      [] con.k = "x" -> u[x] = 0 /\ Abs(res[y]) <= tol[y]
      [] con.k = "y" -> u[y] = 0 /\ Abs(res[x]) <= tol[x]
      [] con.k = "free" -> Abs(res[x]) <= tol[x] /\ Abs(res[y]) <= tol[y]
      [] con.k = "angle" ->
           LET cc == con.t[1]   ss == con.t[2]   h == con.t[3] IN
           /\ Abs((cc * u[x]) + (ss * u[y])) <= h
           /\ Abs(RDiv((cc * res[y]) - (ss * res[x]), h)) <= tol[x] + tol[y] + 1
Equilibrium(s, v, f, sc) ==
    \* every value is bound once, by a quantifier over a single element: TLC would evaluate a definition again and again
    \A u \in {TLCEval(Flat2(v))} : \A ki \in {Forces(s, u)} : \A sl \in {Slack(s, u)} :
    \A res \in {TLCEval([d \in 1..Dofs(s) |-> ki[d] - Scaled(f[d], sc)])} :
    \A tol \in {TLCEval([d \in 1..Dofs(s) |-> sl[d] + 1 + (Abs(Scaled(f[d], sc)) \div 1000) + (sc \div 200)])} :
        \A n \in 1..Len(s.nodes) : Balanced(s, s.cons[n], u, res, tol, n)

(* ---- vibration: shapes v (times 10^4), square of the angular frequency w[1] + w[2] / 10^4 ---- *)
Times(w, x) == (w[1] * x) + (IF Abs(x) <= 200000 THEN RDiv(w[2] * x, 10000) ELSE RDiv(w[2] * RDiv(x, 10), 1000))
Vibration(s, v, mo, w) ==
    \A ki \in {Forces(s, v)} : \A sl \in {Slack(s, v)} : \A ms \in {MomSlack(s, v)} :
    \A res \in {TLCEval([d \in 1..Dofs(s) |-> ki[d] - Times(w, mo[d])])} :
    \A tol \in {TLCEval([d \in 1..Dofs(s) |-> sl[d] + ((w[1] + 1) * ms[d]) + ((w[1] + 1) * (Abs(mo[d]) \div 300)) + (Abs(ki[d]) \div 300) + 4])} :
        \A n \in 1..Len(s.nodes) : Balanced(s, s.cons[n], v, res, tol, n)
MassDot(v, mo) == SumF(LAMBDA d : v[d] * RDiv(mo[d], 100), 1, Len(v))
(* every pair of out is a vibration, and they are orthonormal with respect to the mass *)
Vibrations(s, out) ==
    \A vs \in {TLCEval([i \in 1..Len(out) |-> TLCEval(Flat2(out[i].v))])} :
    \A ms \in {TLCEval([i \in 1..Len(out) |-> Momenta(s, vs[i])])} :
        /\ \A i \in 1..Len(out) : Vibration(s, vs[i], ms[i], out[i].w)
        /\ \A i, j \in 1..Len(out) : j <= i =>
             Near(MassDot(vs[i], ms[j]), IF i = j THEN 1000000 ELSE 0, 30000)
FreeDofs(s) == Cardinality({d \in 1..Dofs(s) : Keeps(s.cons[Node(d)], Dim(d))})

(* ---- nodal stress: the mean over the elements at the node, from displacements times sc ---- *)
ElemsAt(s, n) == {e \in 1..Len(s.els) : \E i \in 1..3 : s.els[e][i] = n}
LocalNode(s, e, n) == CHOOSE i \in 1..3 : s.els[e][i] = n
ElemStressAt(s, e, n, u) ==         \* times sc; rounding at most 1/2
    LET t == s.tris[e]
        v == IF s.m.c = "axi" THEN AxiStress(t, s.lam, ElemDisp(s, e, u), LocalNode(s, e, n))
             ELSE PlaneStress(t, s.lam, ElemDisp(s, e, u))
        den == A2(t) * (IF s.m.c = "axi" THEN t[LocalNode(s, e, n)][1] ELSE 1)
    IN  [i \in 1..Len(v) |-> Sgn(den) * RDiv(v[i], Abs(den))]
StressSlack(s, e) == LET t == s.tris[e] IN
    1 + ((s.lam.a * SumF(LAMBDA i : Abs(Bx(t, i)) + Abs(By(t, i)), 1, 3)) \div s.area[e])
      + (IF s.m.c = "axi" THEN s.lam.a ELSE 0)
NodeStress(s, n, u) ==
    LET es == ElemsAt(s, n)
        comps == IF s.m.c = "axi" THEN 4 ELSE 3
    IN  [i \in 1..comps |-> RDiv(SumF(LAMBDA e : IF e \in es THEN ElemStressAt(s, e, n, u)[i] ELSE 0, 1, Len(s.els)), Cardinality(es))]
NodeStressSlack(s, n) == LET es == ElemsAt(s, n) IN
    1 + (SumF(LAMBDA e : IF e \in es THEN StressSlack(s, e) ELSE 0, 1, Len(s.els)) \div Cardinality(es))
=============================================================================
