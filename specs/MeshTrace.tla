----------------------------- MODULE MeshTrace -----------------------------
(* A body, what is prescribed on it, and the meshes made of it.                *)
EXTENDS BoundaryEvents, Mesh
LOCAL INSTANCE SequencesExt

(* the boundary after meshing, as a refinement of the body *)
AllSegs == 1..Len(b.segs)
KindOf(ks) ==
    LET dirs == (IF ks \cap {"x", "xy"} # {} THEN {1} ELSE {}) \cup (IF ks \cap {"y", "xy"} # {} THEN {2} ELSE {}) IN
    CASE dirs = {1} -> "x" [] dirs = {2} -> "y" [] dirs = {1, 2} -> "xy"
      [] OTHER -> IF "angle:0.5" \in ks THEN "angle:0.5" ELSE "free"
Meshed(t) ==
    LET m == [nodes |-> E.nodes, tris |-> E.tris]
        at == E.at
        walls == {<<at[t.segs[i].a], at[t.segs[i].b]>> : i \in 1..Len(t.segs)}
    IN  /\ ~E.twice /\ \A i \in 1..Len(E.nodes) : AllFin(E.nodes[i])
        /\ Len(at) = Len(t.verts) /\ \A i \in 1..Len(at) : at[i] \in 1..Len(E.nodes) /\ E.nodes[at[i]] = t.verts[i]
        /\ Cardinality(walls) = Len(t.segs)
        /\ Tiling(m, walls)
        /\ Prop = "C24" =>
             /\ E.algo # "wrap" => \A i \in 1..Len(m.tris) : SmallEnough(m, m.tris[i])
             /\ E.algo = "ruppert" => \A i \in 1..Len(m.tris) : Shapely(m, m.tris[i])
        /\ Prop = "C25" =>
             /\ E.matout = E.mat /\ E.condout = E.cond /\ E.conc = 0
             /\ LET held == Held(t)   where == [v \in 1..Len(at) |-> at[v]] IN
                \A n \in 1..Len(E.nodes) : E.cons[n] = KindOf({x[2] : x \in {y \in held : where[y[1]] = n}})
             /\ LET real == SelectSeq(E.forces, LAMBDA x : x[3] # <<0, 0>>)
                    want == {LET i == at[x[1]]   j == at[x[2]] IN <<Min2(i, j), Max2(i, j), x[3]>> : x \in Loads(t)} IN
                /\ {<<Min2(x[1], x[2]), Max2(x[1], x[2]), x[3]>> : x \in {real[i] : i \in 1..Len(real)}} = want
                /\ Len(real) = Cardinality(want)
(* bodies whose walls can be divided for the requested size, without sharp corners and narrow places, are accepted *)
EMesh == /\ Is("mesh") /\ Keep
         /\ IF E.res = "ok"
            THEN /\ (Refines(b, E.obs, AllSegs)) = TRUE
                 /\ LET t == Refined(b, E.obs) IN
                    /\ (E.algo = "wrap" => t = b) = TRUE        \* only triangulated, not refined
                    /\ (E.algo = "chew" => PiecesInRange(t, 1000, 1..Len(t.segs))) = TRUE
                    /\ (Meshed(t)) = TRUE
            ELSE ((E.algo = "chew" /\ \E i \in AllSegs : ~Some(i, 1000, SurelyCut)) \/ ~E.must) = TRUE
Step == EPoly \/ EForce \/ ECon \/ EPin \/ EMesh
Init == TraceInit /\ b = Empty
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ Keep)
Spec == Init /\ [][Next]_vars
Inv == Len(b.segs) = Len(b.verts)
=============================================================================
