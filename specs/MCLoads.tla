------------------------------ MODULE MCLoads ------------------------------
(* Every history of loads on a square of two triangles: nothing is lost,       *)
(* doubled or moved.                                                            *)
EXTENDS Structure, Json, TLC
CONSTANTS MaxLoads, Emit
VARIABLES els, h, f
vars == <<els, h, f>>
Nodes == << <<0, 0>>, <<3, 0>>, <<3, 4>>, <<0, 4>> >>
Listings == { << <<0, 1, 2>>, <<0, 2, 3>> >>, << <<0, 1, 2>>, <<3, 2, 0>> >>, << <<2, 1, 0>>, <<2, 0, 3>> >>, << <<1, 0, 2>>, <<0, 3, 2>> >> }
M == [c |-> "stress", t |-> 1, e |-> 6, p |-> 0, q |-> 1, rho |-> 24]
Free4 == [i \in 1..4 |-> [k |-> "free", t |-> <<0, 1, 1>>]]
S == Make(Nodes, els, M, Free4)
(* node twice: a nodal force; otherwise an edge, in either direction, shared or not *)
Letters == { <<0, 0, 1, 0>>, <<2, 2, -3, 5>>, <<0, 2, 1, -2>>, <<2, 0, 1, -2>>, <<0, 1, 0, 7>>, <<1, 2, -4, 0>>, <<3, 0, 2, 2>>, <<1, 3, 9, 9>> }
Apply(g, x) == IF x[1] = x[2] THEN AddForce(g, x[1], <<x[3], x[4]>>) ELSE AddEdgeForce(S, g, x[1], x[2], <<x[3], x[4]>>)
Init == els \in Listings /\ h = <<>> /\ f = [d \in 1..8 |-> 0]
Next == /\ Len(h) < MaxLoads
        /\ \E x \in Letters : h' = Append(h, x) /\ f' = Apply(f, x)
        /\ UNCHANGED els
Spec == Init /\ [][Next]_vars
(* the resultant of each load: force per length times length, at the middle of its edge; 1 to 3 is no edge *)
Len1(x) == IF x[1] = x[2] THEN 1
           ELSE IF {x[1], x[2]} = {1, 3} THEN 0
           ELSE ISqrt(Sq(Nodes[x[1] + 1][1] - Nodes[x[2] + 1][1]) + Sq(Nodes[x[1] + 1][2] - Nodes[x[2] + 1][2]))
Total(d) == SumF(LAMBDA i : h[i][3 + d] * Len1(h[i]), 1, Len(h))
(* twice the moment about the origin *)
Moment2 == SumF(LAMBDA i : Len1(h[i]) * (((Nodes[h[i][1] + 1][1] + Nodes[h[i][2] + 1][1]) * h[i][4])
                                        - ((Nodes[h[i][1] + 1][2] + Nodes[h[i][2] + 1][2]) * h[i][3])), 1, Len(h))
Resultant == /\ \A d \in 0..1 : SumF(LAMBDA n : f[(2 * n) - 1 + d], 1, 4) = 2000 * Total(d)
             /\ SumF(LAMBDA n : (Nodes[n][1] * f[2 * n]) - (Nodes[n][2] * f[(2 * n) - 1]), 1, 4) = 1000 * Moment2
(* the order of loads, and the listing of the elements, make no difference *)
Superpose == \A i \in 1..8 : f[i] = SumF(LAMBDA k : Apply([d \in 1..8 |-> 0], h[k])[i], 1, Len(h))
Scenario == (Emit /\ h # <<>>) => PrintT("SCN " \o ToJson([els |-> els, h |-> h]))
=============================================================================
