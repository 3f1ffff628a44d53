------------------------------- MODULE MCQuad -------------------------------
(* Integrals along segments: independent of direction, additive under          *)
(* subdivision, and for powers the difference of the antiderivative; every     *)
(* monomial that a rule of some order must integrate, on segments in every     *)
(* direction.                                                                   *)
EXTENDS Elements, Json, TLC
CONSTANTS Emit
VARIABLES i, j, order, a, d
vars == <<i, j, order, a, d>>
Dirs == {<<3, 4, 5>>, <<4, 3, 5>>, <<1, 0, 1>>, <<0, 1, 1>>, <<2, 0, 2>>, <<0, 3, 3>>, <<-3, 4, 5>>, <<-1, 0, 1>>,
         <<0, -2, 2>>, <<3, -4, 5>>}
Init == /\ order \in 1..4 /\ i \in 0..7 /\ j \in 0..7 /\ i + j <= (2 * order) - 1
        /\ a \in {<<0, 0>>, <<1, -1>>} /\ d \in Dirs
        /\ i + j > 5 => d[3] <= 3
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Mono == << <<1, i, j>> >>
To(k) == <<a[1] + (k * d[1]), a[2] + (k * d[2])>>
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Direction == SegMean840(Mono, a, To(1)) = SegMean840(Mono, To(1), a)
(* two segments of the same length one after the other *)
Additive == (i + j <= 5 \/ d[3] <= 1) => 2 * SegMean840(Mono, a, To(2)) = SegMean840(Mono, a, To(1)) + SegMean840(Mono, To(1), To(2))
Powers == j = 0 /\ d[1] # 0 =>
            SegMean840(Mono, a, To(1)) * d[1] * (i + 1) = 840 * (Pow(To(1)[1], i + 1) - Pow(a[1], i + 1))
(* the unit triangle: rows of the mean sum to the integral of the lower monomial *)
Triangle == /\ TriInt24(1, 0) = TriInt24(0, 1) /\ TriInt24(2, 0) = TriInt24(0, 2)
            /\ TriInt24(2, 0) + (2 * TriInt24(1, 1)) + TriInt24(0, 2) = 6      \* (x + y)^2 over the triangle: 1/4
Scenario == Emit => PrintT("SCN " \o ToJson([i |-> i, j |-> j, order |-> order, a |-> a, d |-> d]))
=============================================================================
