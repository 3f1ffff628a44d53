----------------------------- MODULE SolveTrace -----------------------------
(* A recorded history of the real solvers is a behaviour of LinSys.            *)
EXTENDS LinSys, TraceBase
VARIABLE sys
vars == <<sys, c, l>>

Keep == UNCHANGED sys
ENew == Is("new") /\ sys' = Empty(E.n)
ESys == Is("sys") /\ sys' = Given(E.k, E.r)
ECert == /\ Is("cert")
         /\ (Len(E.b) > 0 => CertOK(sys.k, E.b, E.d)) = TRUE
         /\ sys' = [sys EXCEPT !.spd = (Len(E.b) > 0)]
EAddK == Is("addk") /\ sys' = AddK(sys, E.i, E.j, E.v)
EAddM == Is("addm") /\ sys' = AddM(sys, E.i, E.j, E.v)
EAddR == Is("addr") /\ sys' = AddR(sys, E.i, E.v)
EKEnv == Is("kenv") /\ (E.dofs = sys.n /\ EnvCovers(E.env, sys.n, sys.k, sys.touchk)) = TRUE /\ Keep
EMEnv == Is("menv") /\ EnvCovers(E.env, sys.n, sys.m, sys.touchm) = TRUE /\ Keep

Answer == E.res = "ok" /\ E.fin = TRUE /\ Solves(sys.k, sys.r, E.x, E.sc)
DenseOK ==
    IF SurelyNonSingular(sys.k) THEN Answer
    ELSE IF HasZeroLine(sys.k) THEN E.res = "err"
    ELSE E.res \in {"ok", "err"} /\ E.fin = TRUE
CholOK == IsSPD(sys) => Answer
SeidelOK ==
    IsSPD(sys) =>
      /\ (Dominant(sys.k, 2) => E.res = "ok")
      /\ (\A i \in 1..sys.n : sys.r[i] = 0) => (E.res = "ok" /\ E.x = sys.r)
      /\ E.res = "ok" => /\ E.fin = TRUE /\ Len(E.x) = sys.n /\ AllFin(E.x)
                         /\ FixedPoint(sys.k, sys.r, E.x, E.sc)
ESolve == /\ Is("solve")
          /\ (CASE E.via = "dense" -> DenseOK [] E.via = "cholesky" -> CholOK [] E.via = "seidel" -> SeidelOK) = TRUE
          /\ Keep

(* factors are unique: with a known integer factor they must be those *)
ELL == /\ Is("ll") /\ Keep
       /\ (/\ E.k = MatMul(E.l0, Transpose(E.l0, Len(E.l0), Len(E.l0)), Len(E.l0), Len(E.l0), Len(E.l0))
           /\ E.fenv = E.env /\ WithinEnv(E.l, E.env) /\ NearMat(E.l, E.l0, 1000)) = TRUE
ELDL == /\ Is("ldl") /\ Keep
        /\ (LET n == Len(E.l0) IN
            /\ E.k = Mat(n, n, LAMBDA i, j : SumF(LAMBDA t : E.l0[i][t] * E.d0[t] * E.l0[j][t], 1, n))
            /\ E.fenv = E.env /\ WithinEnv(E.l, E.env) /\ NearMat(E.l, E.l0, 1000)
            /\ Len(E.d) = n /\ \A i \in 1..n : Abs(E.d[i] - 1000 * E.d0[i]) <= 1) = TRUE
ELU == /\ Is("lu") /\ Keep
       /\ (LET n == Len(E.l0) IN
           /\ E.k = MatMul(E.l0, E.u0, n, n, n)
           /\ NearMat(E.l, E.l0, 1000) /\ NearMat(E.u, E.u0, 1000)
           /\ \A i \in 1..n : E.l[i][i] = 1000
           /\ \A i, j \in 1..n : (i > j => E.u[i][j] = 0) /\ (i < j => E.l[i][j] = 0)) = TRUE
ELLRes == /\ Is("llres") /\ Keep
          /\ ((E.k = sys.k /\ IsSPD(sys)) =>
                (E.fenv = E.env /\ WithinEnv(E.l, E.env) /\ LLApprox(E.k, E.l, 10000))) = TRUE
ELDLRes == /\ Is("ldlres") /\ Keep
           /\ ((E.k = sys.k /\ IsSPD(sys)) =>
                 (/\ E.fenv = E.env /\ WithinEnv(E.l, E.env) /\ LDLApprox(E.k, E.l, E.d, 10000)
                  /\ \A i \in 1..Len(E.d) : E.d[i] > 0)) = TRUE
EBack == Is("backsolve") /\ Keep /\ Solves(E.k, E.b, E.x, 1000) = TRUE
ESub == /\ Is("subsolve") /\ Keep
        /\ Solves(Mat((E.to - E.from) + 1, (E.to - E.from) + 1, LAMBDA i, j : E.k[(E.from + i) - 1][(E.from + j) - 1]),
                  E.b, E.x, 1000) = TRUE
EInv == /\ Is("inverts") /\ Keep
        /\ (/\ Inverts(E.k, E.x, 1000)
            /\ E.shape = "lower" => \A i, j \in 1..Len(E.k) : j > i => E.x[i][j] = 0
            /\ E.shape = "upper" => \A i, j \in 1..Len(E.k) : j < i => E.x[i][j] = 0) = TRUE
EDet == /\ Is("det") /\ Keep
        /\ (LET d == Det(E.k) IN
            IF d # 0 /\ (E.via # "lu" \/ MinorsNonZero(E.k))
            THEN E.res = "ok" /\ E.fin = TRUE /\ Abs(E.det - 1000 * d) <= 1
            ELSE d = 0 => (E.res = "err" \/ (E.res = "ok" /\ E.fin = TRUE /\ Abs(E.det) <= 1))) = TRUE
(* larger: rows of l0 u0 in the order p; the determinant is known from the factors *)
Sign(p) == IF Cardinality({q \in (1..Len(p)) \X (1..Len(p)) : q[1] < q[2] /\ p[q[1]] > p[q[2]]}) % 2 = 0 THEN 1 ELSE -1
EDetF == /\ Is("detf") /\ Keep
         /\ (LET n == Len(E.k)
                 lu == MatMul(E.l0, E.u0, n, n, n)
                 d == Sign(E.p) * ProdS([i \in 1..n |-> E.u0[i][i]]) IN
             /\ Cardinality({E.p[i] : i \in 1..n}) = n
             /\ \A i, j \in 1..n : (i > j => E.u0[i][j] = 0) /\ (i < j => E.l0[i][j] = 0) /\ (i = j => E.l0[i][j] = 1)
             /\ \A i \in 1..n : E.k[i] = lu[E.p[i]]
             /\ IF d # 0 THEN E.res = "ok" /\ E.fin = TRUE /\ Abs(E.det - 1000 * d) <= 1
                ELSE E.res = "err" \/ (E.res = "ok" /\ E.fin = TRUE /\ Abs(E.det) <= 1)) = TRUE
ECount == /\ Is("count") /\ Keep
          /\ (LET a == Shifted(sys.k, sys.m, E.s2) IN
              (Symmetric(sys.k) /\ Symmetric(sys.m) /\ NoZeroPivot(a)) =>
                 (E.res = "ok" /\ (sys.n <= 4 => E.count = NegEigen(a)) /\ E.count \in 0..sys.n)) = TRUE

Step == \/ ENew \/ ESys \/ ECert \/ EAddK \/ EAddM \/ EAddR \/ EKEnv \/ EMEnv \/ ESolve \/ ELL \/ ELDL \/ ELU
        \/ ELLRes \/ ELDLRes \/ EBack \/ ESub \/ EInv \/ EDet \/ EDetF \/ ECount
Init == TraceInit /\ sys = Nothing
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ UNCHANGED sys)
Spec == Init /\ [][Next]_vars
Inv == /\ Len(sys.k) = sys.n /\ Len(sys.r) = sys.n
       /\ \A i, j \in 1..sys.n : sys.k[i][j] # 0 => <<i, j>> \in sys.touchk
=============================================================================
