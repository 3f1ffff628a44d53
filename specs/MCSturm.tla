------------------------------- MODULE MCSturm -------------------------------
(* The signs of the pivots count the negative eigenvalues: for every symmetric  *)
(* matrix whose leading minors do not vanish, the number of negative pivots of   *)
(* the factorization (ratios of leading minors) equals the number of negative    *)
(* roots of the characteristic polynomial (Descartes' rule, exact for real       *)
(* roots).  It does not depend on the numbering.  Every matrix is printed as a   *)
(* pencil with unit mass for the real code.                                      *)
EXTENDS Eigen, Json, TLC
CONSTANTS N, Vals, Emit
VARIABLES k, i, neg, last, status
vars == <<k, i, neg, last, status>>
Entries == -2..2
Lower3 == {p \in (1..N) \X (1..N) : p[2] <= p[1]}
Init == /\ \E f \in [Lower3 -> Vals] : k = Mat(N, N, LAMBDA a, b : IF b <= a THEN f[<<a, b>>] ELSE f[<<b, a>>])
        /\ i = 1 /\ neg = 0 /\ last = 1 /\ status = "run"
(* one pivot: minor_i / minor_(i-1) *)
PivotStep == /\ status = "run" /\ i <= N
             /\ LET d == Det(Leading(k, i)) IN
                IF d = 0 THEN status' = "zero" /\ UNCHANGED <<i, neg, last>>
                ELSE /\ neg' = neg + (IF Sgn(d) # Sgn(last) THEN 1 ELSE 0)
                     /\ last' = d /\ i' = i + 1
                     /\ status' = IF i = N THEN "done" ELSE "run"
             /\ UNCHANGED k
Next == PivotStep
Spec == Init /\ [][Next]_vars
CountsNegative == status = "done" => neg = NegEigen(k)
Swap == [t \in 1..N |-> (N + 1) - t]
Invariant == (status = "done") => NegEigen(Mat(N, N, LAMBDA a, b : k[Swap[a]][Swap[b]])) = NegEigen(k)
(* a larger shift never lowers the count *)
Monotone == status = "done" =>
    \A s \in 0..3 : NegEigen(Shifted(k, IdMat(N), s)) <= NegEigen(Shifted(k, IdMat(N), s + 1))
Scenario == (Emit /\ i = 1 /\ status = "run") => PrintT("SCN " \o ToJson([k |-> k]))
=============================================================================
