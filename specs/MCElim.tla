------------------------------- MODULE MCElim -------------------------------
(* Elimination with row exchanges, in exact (fraction free) arithmetic, over   *)
(* every N x N matrix with entries in Vals: the algorithm stops without a      *)
(* usable pivot exactly for the singular matrices, every step keeps the        *)
(* solution, and the last pivot with the sign of the exchanges is the          *)
(* determinant.  Every matrix is printed for the real solver.                  *)
EXTENDS LinSys, Json, TLC
CONSTANTS N, Vals, Emit
VARIABLES a0, a, b, col, prev, sign, status
vars == <<a0, a, b, col, prev, sign, status>>
Three == {-1, 0, 2}
Seven == -3..3
X == [i \in 1..N |-> IF i % 2 = 1 THEN i ELSE -i - 1]     \* the solution that the right-hand side belongs to

Init == /\ a0 \in [1..N -> [1..N -> Vals]]
        /\ a = a0 /\ b = MatVec(a0, X) /\ col = 1 /\ prev = 1 /\ sign = 1 /\ status = "run"
Pivot == LET top == MaxS([r \in 1..((N - col) + 1) |-> Abs(a[(col + r) - 1][col])])
         IN  CHOOSE r \in col..N : Abs(a[r][col]) = top
Fail == /\ status = "run" /\ col <= N /\ a[Pivot][col] = 0
        /\ status' = "err" /\ UNCHANGED <<a0, a, b, col, prev, sign>>
Eliminate ==
    /\ status = "run" /\ col <= N /\ a[Pivot][col] # 0
    /\ LET p == Pivot
           sa == [a EXCEPT ![col] = a[p], ![p] = a[col]]
           sb == [b EXCEPT ![col] = b[p], ![p] = b[col]]
           pv == sa[col][col]
       IN  /\ a' = [r \in 1..N |-> IF r <= col THEN sa[r]
                                   ELSE [j \in 1..N |-> (pv * sa[r][j] - sa[r][col] * sa[col][j]) \div prev]]
           /\ b' = [r \in 1..N |-> IF r <= col THEN sb[r] ELSE (pv * sb[r] - sa[r][col] * sb[col]) \div prev]
           /\ prev' = pv
           /\ sign' = IF p = col THEN sign ELSE -sign
    /\ col' = col + 1
    /\ status' = IF col = N THEN "done" ELSE "run"
    /\ UNCHANGED a0
Next == Fail \/ Eliminate
Spec == Init /\ [][Next]_vars

KeepsSolution == MatVec(a, X) = b
Triangular == \A i \in 1..N, j \in 1..N : (j < i /\ j < col) => a[i][j] = 0
Decides == /\ status = "err" => Det(a0) = 0
           /\ status = "done" => (Det(a0) # 0 /\ sign * prev = Det(a0))
(* the modular test of the trace specification agrees with the determinant *)
ModularTest == status # "run" => (DetP(a0) = (Det(a0) % P))
ZeroLines == (status # "run" /\ HasZeroLine(a0)) => status = "err"
Scenario == (Emit /\ status # "run") => PrintT("SCN " \o ToJson([k |-> a0]))
=============================================================================
