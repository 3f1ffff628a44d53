----------------------------- MODULE GraphTrace -----------------------------
EXTENDS Graphs, TraceBase
VARIABLES g, perm
vars == <<g, perm, c, l>>
None == [n |-> 0, e |-> {}]
Keep == UNCHANGED <<g, perm>>
EEdges == Is("edges") /\ g' = FromEdges(E.n, E.edges) /\ perm' = <<>>
ELists == Is("lists") /\ g' = FromLists(E.lists) /\ perm' = <<>>
ECount == Is("count") /\ E.res = g.n /\ Keep
EAdj == Is("adjacent") /\ Lists(E.res, Adj(g, E.v)) = TRUE /\ E.deg = Cardinality(Adj(g, E.v)) /\ Keep
EMasked == /\ Is("masked") /\ Lists(E.res, AdjIn(g, E.v, E.mask)) = TRUE
           /\ E.deg = Cardinality(AdjIn(g, E.v, E.mask)) /\ Keep
EFar == Is("far") /\ IsFar(g, E.v, E.w, E.d) = TRUE /\ Keep
EPer == Is("peripheral") /\ IsPeripheral(g, E.w) = TRUE /\ Keep
EEq == Is("same") /\ E.res = TRUE /\ Keep
EDiff == Is("differs") /\ E.res = (FromEdges(E.n, E.edges) = g) /\ Keep
(* the reversed breadth first numbering: vertex o[i] gets label n - i *)
ERcm == /\ Is("rcm") /\ IsPerm(E.p, g.n) = TRUE
        /\ LET o == [i \in 1..g.n |-> (CHOOSE v \in 1..g.n : E.p[v] = g.n - i) - 1]
           IN  (IsOrdering(g, o) /\ Consecutive(g, o)) = TRUE
        /\ perm' = E.p /\ UNCHANGED g
EId == Is("identity") /\ E.p = [i \in 1..E.n |-> i - 1] /\ perm' = E.p /\ UNCHANGED g
EUn == Is("unpermute") /\ (Len(E.p) = Len(perm) /\ \A i \in 1..Len(perm) : E.p[perm[i] + 1] = i - 1) = TRUE /\ Keep
EInvert == Is("invert") /\ (Len(E.p) = Len(perm) /\ \A i \in 1..Len(perm) : E.p[perm[i] + 1] = i - 1) = TRUE
           /\ perm' = E.p /\ UNCHANGED g
ESlice == Is("slice") /\ (Len(E.after) = Len(perm) /\ \A i \in 1..Len(perm) : E.after[perm[i] + 1] = E.before[i]) = TRUE /\ Keep
ERefuse == Is("refused") /\ E.res = TRUE /\ Keep
Step == \/ EEdges \/ ELists \/ ECount \/ EAdj \/ EMasked \/ EFar \/ EPer \/ EEq \/ EDiff \/ ERcm \/ EId \/ EUn \/ EInvert
        \/ ESlice \/ ERefuse
Init == TraceInit /\ g = None /\ perm = <<>>
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ Keep)
Spec == Init /\ [][Next]_vars
Inv == \A p \in g.e : Cardinality(p) = 2 /\ p \subseteq V(g)
=============================================================================
