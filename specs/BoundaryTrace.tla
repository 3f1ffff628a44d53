--------------------------- MODULE BoundaryTrace ---------------------------
(* Histories of a boundary: polygons, attributes, divisions, splits.           *)
EXTENDS BoundaryEvents
Step == EPoly \/ EForce \/ ECon \/ EPin \/ EDivide \/ EDivideAll \/ ESplit
Init == TraceInit /\ b = Empty
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ Keep)
Spec == Init /\ [][Next]_vars
(* the walls stay closed curves: one segment into every vertex of the boundary and one out of it *)
Inv == /\ Len(b.segs) = Len(b.verts)
       /\ {b.segs[i].a : i \in 1..Len(b.segs)} = 1..Len(b.verts)
       /\ {b.segs[i].b : i \in 1..Len(b.segs)} = 1..Len(b.verts)
=============================================================================
