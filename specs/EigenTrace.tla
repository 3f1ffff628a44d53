----------------------------- MODULE EigenTrace -----------------------------
EXTENDS Eigen, TraceBase
VARIABLES pen, got
vars == <<pen, got, c, l>>
Nought == [k |-> <<>>, m |-> <<>>, d |-> <<>>, sure |-> FALSE]
Keep == UNCHANGED <<pen, got>>
N == Len(pen.k)

(* mass: K = .. any symmetric matrix, M certified positive definite *)
EPencil == /\ Is("pencil")
           /\ (Symmetric(E.k) /\ Symmetric(E.m)
               /\ (Dominant(E.m, 1) \/ (Len(E.mb) > 0 /\ CertOK(E.m, E.mb, E.md)))) = TRUE
           /\ pen' = [k |-> E.k, m |-> E.m, d |-> <<>>, sure |-> Dominant(E.k, 1)] /\ got' = 0
ESpectrum == /\ Is("spectrum")
             /\ Spectrum(E.k, E.m, E.p, E.d) = TRUE
             /\ pen' = [k |-> E.k, m |-> E.m, d |-> E.d, sure |-> \A i \in 1..Len(E.d) : E.d[i] > 0] /\ got' = 0

(* the number of eigenvalues under s2/2; with a congruence l of K - (s2/2) M to diag(d) for larger systems *)
CountIs ==
    LET a == Shifted(pen.k, pen.m, E.s2) IN
    IF Len(pen.d) > 0 THEN E.count = Below(pen.d, E.s2)
    ELSE IF Len(E.l) > 0
    THEN /\ SurelyNonSingular(E.l)
         /\ a = Mat(N, N, LAMBDA i, j : 2 * SumF(LAMBDA t : E.l[i][t] * E.d[t] * E.l[j][t], 1, N))
         /\ E.count = Cardinality({i \in 1..N : E.d[i] < 0})
    ELSE IF Outweighs(a) THEN E.count = Cardinality({i \in 1..N : a[i][i] < 0})
    ELSE E.count = NegEigen(a)
ECount == /\ Is("count") /\ Keep
          /\ (LET a == Shifted(pen.k, pen.m, E.s2) IN
              (Outweighs(a) \/ (N <= 8 /\ NoZeroPivot(a))) => (E.res = "ok" /\ CountIs)) = TRUE

(* ---- pairs ---- *)
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1] + 200
KthSmallest(d, i) == CHOOSE v \in {d[t] : t \in 1..Len(d)} :
                       /\ Cardinality({t \in 1..Len(d) : d[t] < v}) < i
                       /\ Cardinality({t \in 1..Len(d) : d[t] <= v}) >= i
(* value v (scaled 10^4) is the i-th eigenvalue, by exact counts a tenth to either side (three unknowns at most) *)
Tenths(x) == Mat(N, N, LAMBDA i, j : 10 * pen.k[i][j] - x * pen.m[i][j])
ByCount(v, i) == LET x == RDiv(v, 1000) IN NegEigen(Tenths(x - 1)) < i /\ NegEigen(Tenths(x + 1)) >= i
PairOK(v, x, i) ==
    /\ Fin(v) /\ AllFin(x) /\ Len(x) = N /\ v > 0 /\ v < 500000
    /\ \A t \in 1..N : Abs(x[t]) < 60000
    /\ IF Len(pen.d) > 0 THEN Abs(v - 10000 * KthSmallest(pen.d, i)) <= 30 + (KthSmallest(pen.d, i) * 10)
       ELSE N <= 3 => ByCount(v, i)
    /\ Abs(MNorm(pen.m, x) - 10000) <= 40
    /\ LET top == MaxS([t \in 1..N |-> RowAbs(pen.k, t)]) IN
       \A t \in 1..N : Abs(Residual(pen.k, pen.m, v, x, t)) <= 200 * top + 100
Orthogonal(xs) == \A i \in 1..Len(xs) : \A j \in 1..(i - 1) : Abs(MProd(pen.m, xs[i], xs[j])) <= 1000
PairsOK(vals, vecs) ==
    /\ Len(vals) = Len(vecs) /\ Len(vals) <= N
    /\ \A i \in 1..Len(vals) : PairOK(vals[i], vecs[i], i)
    /\ Sorted(vals) /\ Orthogonal(vecs)
EFind == /\ Is("find")
         /\ (pen.sure => (E.res = "ok" /\ Len(E.vals) = E.n /\ PairsOK(E.vals, E.vecs))) = TRUE
         /\ got' = Max2(got, E.n) /\ UNCHANGED pen
(* one more round finds at least one more, unless all are found; nothing found before is lost *)
ERound == /\ Is("round")
          /\ (pen.sure => (/\ E.res = "ok" /\ PairsOK(E.vals, E.vecs)
                           /\ Len(E.vals) > got \/ (got = N /\ Len(E.vals) = N))) = TRUE
          /\ got' = Len(E.vals) /\ UNCHANGED pen
EPairs == /\ Is("pairs")
          /\ (pen.sure => (E.res = "ok" /\ Len(E.vals) >= got /\ PairsOK(E.vals, E.vecs))) = TRUE
          /\ got' = Len(E.vals) /\ UNCHANGED pen
Step == EPencil \/ ESpectrum \/ ECount \/ EFind \/ ERound \/ EPairs
Init == TraceInit /\ pen = Nought /\ got = 0
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ Keep)
Spec == Init /\ [][Next]_vars
Inv == Symmetric(pen.k) /\ Symmetric(pen.m) /\ got <= N
=============================================================================
