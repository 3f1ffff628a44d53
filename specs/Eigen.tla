------------------------------- MODULE Eigen -------------------------------
(* Symmetric pencils K v = w M v: how many eigenvalues lie below a shift, and  *)
(* what a list of eigenpairs has to be.                                        *)
EXTENDS LinSys
LOCAL INSTANCE TLC

(* a pencil with known spectrum: M = P P', K = P diag(d) P' with P nonsingular has the eigenvalues d *)
Spectrum(k, m, p, d) ==
    LET n == Len(k) IN
    /\ SurelyNonSingular(p)
    /\ m = Mat(n, n, LAMBDA i, j : Dot(p[i], p[j]))
    /\ k = Mat(n, n, LAMBDA i, j : SumF(LAMBDA t : p[i][t] * d[t] * p[j][t], 1, n))
Below(d, s2) == Cardinality({i \in 1..Len(d) : 2 * d[i] < s2})

(* every diagonal outweighs its row: no principal submatrix is singular, and the discs of Gershgorin on   *)
(* either side of zero are disjoint, so that the negative eigenvalues are as many as negative diagonals    *)
Outweighs(a) == \A i \in 1..Len(a) : 2 * Abs(a[i][i]) > RowAbs(a, i)

(* a pair (value, vector), both scaled by 10^4; coefficients up to 200, n up to 6 *)
MNorm(m, v) ==        \* v' M v in units of 10^-4: one factor is split to stay within 32 bits
    SumF(LAMBDA i : MulS(v[i], Dot(m[i], v), 10000), 1, Len(v))
MProd(m, v, w) == SumF(LAMBDA i : MulS(v[i], Dot(m[i], w), 10000), 1, Len(v))
(* the i-th component of K v - w M v in units of 10^-4 *)
Residual(k, m, w, v, i) == Dot(k[i], v) - MulS(RDiv(w, 10), Dot(m[i], v), 1000)
=============================================================================
