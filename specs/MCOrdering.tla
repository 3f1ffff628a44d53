----------------------------- MODULE MCOrdering -----------------------------
(* Cuthill-McKee as a queue machine over every graph on N vertices: whatever   *)
(* start is chosen in each component and in whatever order the unnumbered      *)
(* neighbours of a vertex are appended, the result is a breadth first          *)
(* numbering of all vertices with the components kept together.                *)
EXTENDS Graphs, Json, TLC
CONSTANTS N, Emit, Explore
VARIABLES g, o, head
vars == <<g, o, head>>
AllPairs == {p \in SUBSET (0..(N - 1)) : Cardinality(p) = 2}
Init == g \in {[n |-> N, e |-> s] : s \in SUBSET AllPairs} /\ o = <<>> /\ head = 1
Numbered == {o[i] : i \in 1..Len(o)}
Orders(s) == {f \in [1..Cardinality(s) -> s] : {f[i] : i \in 1..Cardinality(s)} = s}
Restart == /\ head = Len(o) + 1 /\ Len(o) < N
           /\ \E v \in V(g) \ Numbered : o' = Append(o, v)
           /\ UNCHANGED <<g, head>>
Visit == /\ head <= Len(o)
         /\ \E f \in Orders(Adj(g, o[head]) \ Numbered) : o' = o \o f
         /\ head' = head + 1 /\ UNCHANGED g
Next == Explore /\ (Restart \/ Visit)
Spec == Init /\ [][Next]_vars
Finished == head = N + 1
NoRepeats == Cardinality(Numbered) = Len(o)
Complete == Finished => (IsOrdering(g, o) /\ Consecutive(g, o))
Scenario == (Emit /\ o = <<>>) => PrintT("SCN " \o ToJson([n |-> N, edges |-> g.e]))
=============================================================================
