------------------------------- MODULE MCRelax -------------------------------
(* The over-relaxed sweep on every small symmetric positive definite system:    *)
(* the energy norm of its movement never grows, so that a small last movement   *)
(* certifies the answer, and it comes to rest at the solution.                  *)
EXTENDS LinSys, TLC
CONSTANTS N, Off, Sweeps, Scale
VARIABLES k, r, u, d, t
vars == <<k, r, u, d, t>>
Offs == -1..1
Zero == [i \in 1..N |-> 0]
Pairs == {p \in (1..N) \X (1..N) : p[2] < p[1]}
Init == /\ \E f \in [Pairs -> Off], g \in [1..N -> {1, 3}] :
             k = Mat(N, N, LAMBDA i, j :
                   IF i = j THEN g[i] + SumF(LAMBDA x : IF x = i THEN 0 ELSE Abs(f[IF x < i THEN <<i, x>> ELSE <<x, i>>]), 1, N)
                   ELSE f[IF j < i THEN <<i, j>> ELSE <<j, i>>])
        /\ r \in [1..N -> {-2, 0, 5}]
        /\ u = Zero /\ d = Zero /\ t = 0
Next == /\ t < Sweeps
        /\ d' = Sweep(k, r, u, Scale)
        /\ u' = [i \in 1..N |-> u[i] + d'[i]]
        /\ t' = t + 1 /\ UNCHANGED <<k, r>>
Spec == Init /\ [][Next]_vars
Energy(x) == SumF(LAMBDA i : x[i] * Dot(k[i], x), 1, N)
Contracts == [][t >= 1 => Energy(d') <= Energy(d) + 40 * (MaxS([i \in 1..N |-> Abs(d[i])]) + 20)]_vars
Settles == t = Sweeps => Solves(k, r, u, Scale)
=============================================================================
