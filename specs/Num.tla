-------------------------------- MODULE Num --------------------------------
(* Integer, vector and matrix arithmetic used by the specifications.        *)
(* Vectors are sequences, matrices sequences of rows, real numbers recorded  *)
(* from the code are integers: round(x * scale).                             *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

BADNUM == 2000000000          \* the driver's mark for NaN, infinity, out of range
Fin(x) == x < 1000000001 /\ x > -1000000001
AllFin(s) == \A i \in 1..Len(s) : Fin(s[i])
MatFin(m) == \A i \in 1..Len(m) : AllFin(m[i])

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Near(a, b, tol) == Abs(a - b) <= tol

\* division rounded to nearest (d > 0)
RDiv(n, d) == (n \div d) + (IF 2 * (n % d) >= d THEN 1 ELSE 0)

SumS(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
RECURSIVE SumF(_, _, _)
SumF(f(_), i, j) == IF i > j THEN 0 ELSE f(i) + SumF(f, i + 1, j)
ProdS(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
MaxS(s) == FoldLeft(Max2, s[1], s)
MinS(s) == FoldLeft(Min2, s[1], s)

Dot(x, y) == SumF(LAMBDA i : x[i] * y[i], 1, Len(x))

Rows(m) == Len(m)
ColsOf(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
Mat(r, k, f(_, _)) == [i \in 1..r |-> [j \in 1..k |-> f(i, j)]]
ZeroMat(r, k) == Mat(r, k, LAMBDA i, j : 0)
IdMat(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
RowOf(m, i) == m[i]
ColOf(m, j) == [i \in 1..Len(m) |-> m[i][j]]
Transpose(m, r, k) == Mat(k, r, LAMBDA i, j : m[j][i])
MatVec(m, x) == [i \in 1..Len(m) |-> Dot(m[i], x)]
MatMul(a, b, r, n, k) == Mat(r, k, LAMBDA i, j : SumF(LAMBDA t : a[i][t] * b[t][j], 1, n))
MatAdd(a, b, s) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> a[i][j] + s * b[i][j]]]
Symmetric(m) == \A i, j \in 1..Len(m) : m[i][j] = m[j][i]
Flat(m) == FoldLeft(LAMBDA a, b : a \o b, <<>>, m)
IsPerm(p, n) == /\ Len(p) = n
                /\ \A i \in 1..n : p[i] \in 0..(n - 1)
                /\ \A i, j \in 1..n : p[i] = p[j] => i = j
=============================================================================
