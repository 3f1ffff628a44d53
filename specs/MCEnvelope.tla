----------------------------- MODULE MCEnvelope -----------------------------
(* Symbolic factorization of every sparsity pattern on N unknowns: eliminating *)
(* the columns one after the other fills only positions inside the envelope    *)
(* of the lower triangle, which is all that the envelope scheme stores.        *)
EXTENDS Integers, FiniteSets, Sequences, Json, TLC
CONSTANTS N, Emit
VARIABLES pat, fill, col
vars == <<pat, fill, col>>
Pairs == {p \in (1..N) \X (1..N) : p[2] < p[1]}
Init == pat \in SUBSET Pairs /\ fill = pat /\ col = 1
Eliminate == /\ col <= N
             /\ fill' = fill \cup {p \in Pairs : p[2] > col /\ <<p[1], col>> \in fill /\ <<p[2], col>> \in fill}
             /\ col' = col + 1 /\ UNCHANGED pat
Next == Eliminate
Spec == Init /\ [][Next]_vars
First(s, i) == LET js == {j \in 1..i : j = i \/ <<i, j>> \in s} IN CHOOSE j \in js : \A k \in js : j <= k
InEnvelope == \A p \in fill : p[2] >= First(pat, p[1])
(* the inner product for position (i, j) needs only the columns that both rows store *)
Aligned == \A p \in Pairs : \A k \in 1..N :
             (k < p[2] /\ <<p[1], k>> \in fill /\ <<p[2], k>> \in fill)
                 => (k >= First(pat, p[1]) /\ k >= First(pat, p[2]))
(* the fill does not join what the pattern leaves disconnected *)
Scenario == (Emit /\ col = N + 1) => PrintT("SCN " \o ToJson([n |-> N, edges |-> pat]))
=============================================================================
