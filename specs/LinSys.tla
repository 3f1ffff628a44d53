------------------------------- MODULE LinSys -------------------------------
(* A linear system K x = r under assembly, and what it means to solve it,     *)
(* factor it, or count its eigenvalues.  Coefficients are integers; results   *)
(* of the code are integers round(value * scale).                             *)
EXTENDS Num, Functions, FiniteSetsExt

Empty(n) == [n |-> n, k |-> ZeroMat(n, n), m |-> ZeroMat(n, n), r |-> [i \in 1..n |-> 0],
             touchk |-> {}, touchm |-> {}, spd |-> FALSE]
Nothing == Empty(0)
Given(k, r) == [Empty(Len(k)) EXCEPT !.k = k, !.r = r,
                   !.touchk = {p \in (1..Len(k)) \X (1..Len(k)) : k[p[1]][p[2]] # 0}]

(* ---- assembly: a contribution is added, whatever is there already ---- *)
AddK(s, i, j, v) == [s EXCEPT !.k[i][j] = @ + v, !.touchk = @ \cup {<<i, j>>}, !.spd = FALSE]
AddM(s, i, j, v) == [s EXCEPT !.m[i][j] = @ + v, !.touchm = @ \cup {<<i, j>>}]
AddR(s, i, v) == [s EXCEPT !.r[i] = @ + v]

(* the envelope of row i reaches from its first stored column to the diagonal: it covers every  *)
(* nonzero and nothing that was never touched                                                   *)
EnvCovers(env, n, k, touch) ==
    /\ Len(env) = n
    /\ \A i \in 1..n :
         LET nz == {j \in 1..i : k[i][j] # 0}
             tc == {j \in 1..i : <<i, j>> \in touch}
         IN  /\ nz # {} => env[i] >= (i - Min(nz)) + 1
             /\ IF tc = {} THEN env[i] = 0 ELSE env[i] <= (i - Min(tc)) + 1

(* ---- certificates ---- *)
(* K = B B' + diag(d), d > 0 *)
CertOK(k, b, d) ==
    LET n == Len(k) IN
    /\ \A i \in 1..n : d[i] > 0
    /\ k = Mat(n, n, LAMBDA i, j : Dot(b[i], b[j]) + (IF i = j THEN d[i] ELSE 0))
RowAbs(k, i) == SumF(LAMBDA j : Abs(k[i][j]), 1, Len(k[i]))
(* every diagonal exceeds f times the rest of its row *)
Dominant(k, f) == \A i \in 1..Len(k) : k[i][i] > f * (RowAbs(k, i) - Abs(k[i][i]))
IsSPD(s) == s.n > 0 /\ Symmetric(s.k) /\ (s.spd \/ Dominant(s.k, 1))

(* ---- exact facts about an integer matrix ---- *)
P == 46337                      \* a prime: arithmetic modulo P stays within 32 bits
RECURSIVE PowP(_, _)
PowP(a, e) == IF e = 0 THEN 1
              ELSE LET h == PowP((a * a) % P, e \div 2) IN IF e % 2 = 1 THEN (h * a) % P ELSE h
InvP(a) == PowP(a, P - 2)
(* determinant modulo P by elimination *)
RECURSIVE ElimP(_, _, _)
ElimP(m, i, acc) ==
    LET n == Len(m) IN
    IF i > n THEN acc
    ELSE LET cand == {r \in i..n : m[r][i] # 0} IN
         IF cand = {} THEN 0
         ELSE LET p == Min(cand)
                  sw == [m EXCEPT ![i] = m[p], ![p] = m[i]]
                  pr == sw[i]
                  inv == InvP(pr[i])
                  nx == [r \in 1..n |->
                           IF r <= i \/ sw[r][i] = 0 THEN sw[r]
                           ELSE LET f == (sw[r][i] * inv) % P
                                IN  [j \in 1..n |-> (sw[r][j] + (P - ((f * pr[j]) % P))) % P]]
              IN  ElimP(nx, i + 1, ((IF p = i THEN acc ELSE (P - acc) % P) * pr[i]) % P)
DetP(k) == ElimP([i \in 1..Len(k) |-> [j \in 1..Len(k) |-> k[i][j] % P]], 1, 1)
(* sufficient for nonsingular; a matrix for which it fails may be either *)
SurelyNonSingular(k) == DetP(k) # 0
HasZeroLine(k) == \/ \E i \in 1..Len(k) : \A j \in 1..Len(k) : k[i][j] = 0
                  \/ \E j \in 1..Len(k) : \A i \in 1..Len(k) : k[i][j] = 0
(* the exact determinant, for small integers *)
Minor(k, c) == [i \in 1..(Len(k) - 1) |-> [j \in 1..(Len(k) - 1) |-> k[i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE Det(_)
Det(k) == IF Len(k) = 0 THEN 1
          ELSE SumF(LAMBDA j : IF k[1][j] = 0 THEN 0
                               ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * k[1][j] * Det(Minor(k, j)), 1, Len(k))
Sub(k, s) ==  \* the principal submatrix on the index set s
    LET o == [t \in 1..Cardinality(s) |-> CHOOSE i \in s : Cardinality({j \in s : j < i}) = t - 1]
    IN  [a \in 1..Len(o) |-> [b \in 1..Len(o) |-> k[o[a]][o[b]]]]
Leading(k, t) == [i \in 1..t |-> [j \in 1..t |-> k[i][j]]]
MinorsNonZero(k) == \A t \in 1..Len(k) : Det(Leading(k, t)) # 0

(* ---- the solution of K x = r, x scaled by sc: up to the rounding of x the residual is zero ---- *)
Solves(k, r, x, sc) ==
    /\ Len(x) = Len(k) /\ AllFin(x) /\ sc > 0
    /\ \A i \in 1..Len(k) : Abs(Dot(k[i], x) - sc * r[i]) <= RowAbs(k, i) + 2

(* X is the inverse of K, scaled by sc *)
Inverts(k, x, sc) ==
    LET n == Len(k) IN
    /\ Len(x) = n /\ MatFin(x)
    /\ \A i, j \in 1..n :
         Abs(SumF(LAMBDA t : k[i][t] * x[t][j], 1, n) - (IF i = j THEN sc ELSE 0)) <= RowAbs(k, i) + 2

(* ---- factors ---- *)
WithinEnv(l, env) == \A i, j \in 1..Len(l) : (j > i \/ j <= i - env[i]) => l[i][j] = 0
NearMat(a, b, sc) == \A i, j \in 1..Len(b) : Abs(a[i][j] - sc * b[i][j]) <= 1
(* products of scaled factors in units of 1/sc, so that 32 bits suffice *)
MulS(a, b, sc) ==   \* round(a * b / sc) without leaving 32 bits: split one factor
    LET hi == b \div sc
        lo == b - sc * hi
    IN  a * hi + RDiv(a * lo, sc)
SqrtBound == 2000000
LLApprox(k, l, sc) ==
    LET n == Len(k) IN
    /\ \A i, j \in 1..n : Abs(l[i][j]) <= SqrtBound
    /\ \A i \in 1..n : l[i][i] > 0
    /\ \A i \in 1..n : \A j \in 1..i :
         Abs(SumF(LAMBDA t : MulS(l[i][t], l[j][t], sc), 1, j) - sc * k[i][j]) <= 10 * n + 2
LDLApprox(k, l, d, sc) ==
    LET n == Len(k) IN
    /\ \A i, j \in 1..n : Abs(l[i][j]) <= SqrtBound
    /\ \A i \in 1..n : Abs(d[i]) <= SqrtBound /\ l[i][i] = sc
    /\ \A i \in 1..n : \A j \in 1..i :
         Abs(SumF(LAMBDA t : MulS(MulS(l[i][t], l[j][t], sc), d[t], sc), 1, j) - sc * k[i][j]) <= 60 * n

(* ---- relaxation: one sweep of the iterative solver from u, and how far it moves ---- *)
(* over-relaxation 1.3, diagonals positive; the sweep from u moves component i by move[i] *)
Sweep(k, r, u, sc) ==
    LET n == Len(k)
        RECURSIVE Go(_, _)
        Go(mv, i) ==
            IF i > n THEN mv
            ELSE LET res == sc * r[i] - SumF(LAMBDA j : k[i][j] * (IF j < i THEN u[j] + mv[j] ELSE u[j]), 1, n)
                 IN  Go(Append(mv, RDiv(13 * res, 10 * k[i][i])), i + 1)
    IN  Go(<<>>, 1)
(* The solver stops when a sweep moved u by no more than tol = 1/1000 of its norm.  A further sweep cannot *)
(* increase the energy norm of the movement, so d' K d <= lambda_max * tol^2 * |u|^2.                       *)
FixedPoint(k, r, u, sc) ==
    LET n == Len(k)
        d == Sweep(k, r, u, sc)
        top == MaxS([i \in 1..n |-> RowAbs(k, i)])
        u2 == SumF(LAMBDA i : (u[i] \div 100) * (u[i] \div 100), 1, n)      \* |u|^2 / 10^4
    IN  /\ \A i \in 1..n : Abs(d[i]) <= 900
        /\ SumF(LAMBDA i : d[i] * Dot(k[i], d), 1, n) <= 4 * top * ((u2 \div 100) + 10 * n)

(* ---- inertia ---- *)
(* e_k of the eigenvalues: the sum of the principal minors of order k *)
ESym(a, t) == LET ss == kSubset(t, 1..Len(a)) IN MapThenSumSet(LAMBDA s : Det(Sub(a, s)), ss)
(* the characteristic polynomial of a symmetric matrix has real roots only, so Descartes' rule is exact:  *)
(* the number of negative eigenvalues is the number of sign changes of 1, e1, e2, ..., en                  *)
RECURSIVE Changes(_)
Changes(s) == IF Len(s) < 2 THEN 0
              ELSE (IF Sgn(s[1]) # Sgn(s[2]) THEN 1 ELSE 0) + Changes(Tail(s))
NegEigen(a) ==
    LET n == Len(a)
        e == [t \in 1..(n + 1) |-> IF t = 1 THEN 1 ELSE ESym(a, t - 1)]
    IN  Changes(SelectSeq(e, LAMBDA v : v # 0))
(* K - (s2/2) M, doubled *)
Shifted(k, m, s2) == Mat(Len(k), Len(k), LAMBDA i, j : 2 * k[i][j] - s2 * m[i][j])
(* no factorization, in whatever order, meets a zero pivot *)
NoZeroPivot(a) == \A s \in (SUBSET (1..Len(a))) \ {{}} : DetP(Sub(a, s)) # 0
=============================================================================
