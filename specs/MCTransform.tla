---------------------------- MODULE MCTransform ----------------------------
(* Every pair of node constraints: striking directions in rotated coordinates  *)
(* keeps energy and work, and the displacements that come back obey the        *)
(* constraints.                                                                *)
EXTENDS Constraints, Json, TLC
CONSTANTS Emit
VARIABLES cons, x
vars == <<cons, x>>
Triples == {<<3, 4, 5>>, <<-4, 3, 5>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<12, -5, 13>>, <<1, 0, 1>>}
Menu == {[k |-> k, t |-> <<1, 0, 1>>] : k \in {"free", "x", "y", "xy"}} \cup {[k |-> "angle", t |-> t] : t \in Triples}
K == <<<<7, -2, 1, 0>>, <<-2, 5, 3, -1>>, <<1, 3, 9, 2>>, <<0, -1, 2, 6>>>>
R == <<3, -2, 5, 1>>
Init == /\ cons \in [1..2 -> Menu]
        /\ x \in [1..Len(KeptDofs(cons)) -> {-2, 1, 3}]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Kept == KeptDofs(cons)
(* common denominator of everything *)
D == 5 * 13
U == [i \in 1..4 |-> Unbar(cons, x, i) * (D \div H(cons[Node(i)]))]         \* D times the displacement
UnitT == \A n \in 1..2 : cons[n].k = "angle" => TripleOK(cons[n].t)
Energy == LET lhs == SumF(LAMBDA i : SumF(LAMBDA j : U[i] * K[i][j] * U[j], 1, 4), 1, 4)
              rhs == SumF(LAMBDA i : SumF(LAMBDA j :
                       x[i] * x[j] * BarEntry(cons, K, Kept[i], Kept[j])
                         * (D \div H(cons[Node(Kept[i])])) * (D \div H(cons[Node(Kept[j])])), 1, Len(Kept)), 1, Len(Kept))
          IN  lhs = rhs
Work == LET rhs == SumF(LAMBDA i : x[i] * BarLoad(cons, R, Kept[i]) * (D \div H(cons[Node(Kept[i])])), 1, Len(Kept))
        IN  Dot(U, R) = rhs
Obeys == \A n \in 1..2 :
           LET u == U[2 * n - 1]  v == U[2 * n] IN
           CASE cons[n].k = "free" -> TRUE [] cons[n].k = "x" -> u = 0 [] cons[n].k = "y" -> v = 0
             [] cons[n].k = "xy" -> u = 0 /\ v = 0
             [] cons[n].k = "angle" -> cons[n].t[1] * u + cons[n].t[2] * v = 0
Scenario == (Emit /\ \A i \in 1..Len(x) : x[i] = -2) => PrintT("SCN " \o ToJson([cons |-> cons]))
=============================================================================
