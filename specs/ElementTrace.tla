---------------------------- MODULE ElementTrace ----------------------------
EXTENDS Elements, TraceBase
VARIABLES el, st
vars == <<el, st, c, l>>
NoEl == [t |-> <<<<0, 0>>, <<1, 0>>, <<0, 1>>>>, m |-> [c |-> "none", t |-> 1, rho |-> 1], ids |-> <<0, 1, 2>>,
         lam |-> [a |-> 1, b |-> 0, g |-> 1]]
Keep == UNCHANGED <<el, st>>
Ab == Abs(A2(el.t))
Axi == el.m.c = "axi"

ETri == /\ Is("tri")
        /\ (/\ Proper(E.t) /\ E.ids[1] # E.ids[2] /\ E.ids[2] # E.ids[3] /\ E.ids[1] # E.ids[3]
            /\ E.m.c = "axi" => RMin(E.t) > 0) = TRUE
        /\ el' = [t |-> E.t, m |-> E.m, ids |-> E.ids, lam |-> Lam(E.m)] /\ UNCHANGED st

(* the material matrix: normal components xx, yy, then shear, then (axisymmetric) the hoop component *)
CMat(m, lam) == LET n == IF m.c = "axi" THEN 4 ELSE 3 IN
    Mat(n, n, LAMBDA i, j : IF i = 3 \/ j = 3 THEN (IF i = j THEN lam.g ELSE 0)
                            ELSE IF i = j THEN lam.a ELSE lam.b)
ECMat == /\ Is("cmat") /\ Keep
         /\ (/\ E.res = "ok" /\ Len(E.out) = Len(CMat(el.m, el.lam))
             /\ \A i \in 1..Len(E.out) : /\ Len(E.out[i]) = Len(E.out)
                                          /\ \A j \in 1..Len(E.out) : Near(E.out[i][j], 10000 * CMat(el.m, el.lam)[i][j], 1)) = TRUE

(* ---- stiffness, logged times sc ---- *)
KPlaneOK == \A i, j \in 1..6 :
    /\ Fin(E.out[i][j])
    /\ Abs(E.out[i][j]) < 1000000000 \div (2 * Ab)
    /\ Near(E.out[i][j] * 2 * Ab, E.sc * el.m.t * PlaneK(el.t, el.lam, i, j), 2 * Ab)
KAxiOK ==
    /\ \A i, j \in 1..6 :
         LET base == E.sc * AxiK(el.t, el.lam, i, j)
             hoop == E.sc * Hoop4(el.t, el.lam, i, j)
             v == E.out[i][j] * 6 * Ab
         IN  /\ Fin(E.out[i][j]) /\ Abs(E.out[i][j]) < 1000000000 \div (6 * Ab)
             /\ v >= base + (hoop \div (4 * RMax(el.t))) - (6 * Ab)
             /\ v <= base + (hoop \div (4 * RMin(el.t))) + 1 + (6 * Ab)
    (* the uniform radial stretch u = r is integrated exactly by any rule of degree two *)
    /\ \A i \in 1..6 :
         LET s == Sgn(A2(el.t))
             f == SumF(LAMBDA n : E.out[i][(2 * n) - 1] * el.t[n][1], 1, 3)
             want == IF LDim(i) = 0
                     THEN (el.lam.a + el.lam.b) * ((s * Bx(el.t, LNode(i)) * RSum(el.t)) + Ab)
                     ELSE 2 * el.lam.b * s * By(el.t, LNode(i)) * RSum(el.t)
         IN  Near(6 * f, E.sc * want, 6 * (RSum(el.t) + 1))
ECalcK == /\ Is("calck") /\ Keep
          /\ (E.res = "ok" /\ (IF Axi THEN KAxiOK ELSE KPlaneOK)) = TRUE

(* ---- mass ---- *)
MPlaneOK == \A i, j \in 1..6 :
    /\ Fin(E.out[i][j]) /\ Abs(E.out[i][j]) < 80000000
    /\ Near(E.out[i][j] * 24, E.sc * el.m.rho * el.m.t * Ab * PlaneM(i, j), 24)
MAxiOK ==
    LET t == el.t  rr(n) == t[n][1]  R == RSum(el.t) IN
    /\ \A i, j \in 1..6 : Fin(E.out[i][j]) /\ Abs(E.out[i][j]) < 15000000
    /\ \A i, j \in 1..6 : LDim(i) # LDim(j) => E.out[i][j] = 0
    /\ \A i, j \in 1..6 : LDim(i) = LDim(j) =>
         LET w == IF i = j THEN (2 * R) + (4 * rr(LNode(i))) ELSE R + rr(LNode(i)) + rr(LNode(j))
         IN  /\ Near(E.out[i][j] * 120, E.sc * el.m.rho * Ab * w, 240 + (E.sc * el.m.rho * Ab * (RMax(t) - RMin(t))))
             /\ Near(E.out[i][j], E.out[j][i], 1)
    /\ \A i \in 1..6 : Near(24 * SumF(LAMBDA j : E.out[i][j], 1, 6), E.sc * el.m.rho * Ab * (R + rr(LNode(i))), 100)
ECalcM == /\ Is("calcm") /\ Keep
          /\ (E.res = "ok" /\ (IF Axi THEN MAxiOK ELSE MPlaneOK)) = TRUE

(* ---- a force per length f along the edge from node a to node b (by id) ---- *)
HasId(i) == \E n \in 1..3 : el.ids[n] = i
LocalOf(i) == CHOOSE n \in 1..3 : el.ids[n] = i
EEdge == /\ Is("edge") /\ Keep
         /\ (IF HasId(E.a) /\ HasId(E.b) /\ E.a # E.b
             THEN LET la == LocalOf(E.a)  lb == LocalOf(E.b)  len == Length1000(el.t[la], el.t[lb]) IN
                  /\ E.res = "ok" /\ Len(E.out) = 6
                  /\ \A i \in 1..6 :
                       /\ Fin(E.out[i]) /\ Abs(E.out[i]) < 1000000
                       /\ Near(E.out[i] * 2,
                               IF LNode(i) \in {la, lb} THEN E.f[LDim(i) + 1] * len ELSE 0, 4 + Abs(E.f[LDim(i) + 1]))
             ELSE E.res = "none") = TRUE
(* which of the listed pairs of nodes are an edge of the element, and where its nodes are *)
ETopo == /\ Is("topo") /\ Keep
         /\ (/\ \A n \in 1..Len(E.pairs) :
                  E.joined[n] = (E.pairs[n][1] # E.pairs[n][2] /\ HasId(E.pairs[n][1]) /\ HasId(E.pairs[n][2]))
             /\ \A n \in 1..Len(E.at) :
                  LET i == E.at[n].id IN
                  /\ E.at[n].has = HasId(i)
                  /\ HasId(i) => E.at[n].p = el.t[LocalOf(i)]) = TRUE

(* ---- stresses at the nodes of the element under integer displacements, logged times 1000 ---- *)
EStress == /\ Is("stress") /\ Keep
           /\ (/\ E.res = "ok" /\ Len(E.out) = 3
               /\ \A n \in 1..3 :
                    LET s == IF Axi THEN AxiStress(el.t, el.lam, E.u, n) ELSE PlaneStress(el.t, el.lam, E.u)
                        d == A2(el.t) * (IF Axi THEN el.t[n][1] ELSE 1)
                    IN  /\ E.out[n].id = el.ids[n] /\ Len(E.out[n].s) = Len(s)
                        /\ \A i \in 1..Len(s) :
                             /\ Fin(E.out[n].s[i]) /\ Abs(E.out[n].s[i]) < 1000000000 \div Abs(d)
                             /\ Near(E.out[n].s[i] * d, 1000 * s[i], Abs(d))) = TRUE

(* ---- stress states: st is the sequence of components of the state under consideration ---- *)
ENewState == /\ Is("newstate") /\ st' = [k |-> E.kind, s |-> E.s] /\ UNCHANGED el
EOpState == /\ Is("opstate") /\ UNCHANGED el
            /\ st' = [st EXCEPT !.s = [i \in 1..Len(st.s) |->
                   CASE E.o = "add" -> st.s[i] + E.s[i] [] E.o = "mul" -> st.s[i] * E.x
                     [] E.o = "div" -> ExactDiv(Sgn(E.x) * st.s[i], Abs(E.x))]]
EMises == /\ Is("mises") /\ Keep
          /\ (/\ Fin(E.out)
              /\ Near(E.out, ISqrt(Mises2(st.k, st.s) * 500000), 2)
              /\ Mises2(st.k, st.s) = 0 => E.out = 0) = TRUE
ECauchy == /\ Is("cauchy") /\ Keep
           /\ (E.res = "ok" /\ E.out = Cauchy(st.k, st.s)) = TRUE

(* ---- quadrature: the integrand is a sum of terms <<k, i, j>> = k x^i y^j, results times 1000 ---- *)
Degree(ts) == MaxS([n \in 1..Len(ts) |-> ts[n][2] + ts[n][3]])
(* out = (integral / 10^e); the segment has the integral length len *)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Reach(d) == Max2(Abs(E.a[d]), Abs(E.b[d]))
ESegInt == /\ Is("segint") /\ Keep
           /\ (Degree(E.terms) <= (2 * E.order) - 1 =>
                 /\ E.res = "ok" /\ Fin(E.out)
                 /\ Sq(E.len) = Sq(E.a[1] - E.b[1]) + Sq(E.a[2] - E.b[2])
                 /\ LET m == SegMean840(E.terms, E.a, E.b) IN
                    \* integral * 840 = m * len ; out = integral * 1000 / len
                    /\ Abs(E.out) < 2000000000
                    /\ Near(E.out, ((m \div 840) * 1000) + RDiv((m % 840) * 1000, 840), 2 + (Abs(m) \div 84000))
                    \* and to the ninth digit: fine = what the integral exceeds out by, times 10^9
                    /\ LET rest == 840 * (E.out - ((m \div 840) * 1000)) - ((m % 840) * 1000)
                           size == SumF(LAMBDA n : Abs(E.terms[n][1]) * Pow(Reach(1), E.terms[n][2]) * Pow(Reach(2), E.terms[n][3]), 1, Len(E.terms))
                       IN  /\ Abs(rest) <= 840 /\ Abs(E.fine) <= 600000
                           /\ Abs((rest * 1000000) + (840 * E.fine)) <= 840 * (3 + (size \div 20000))) = TRUE
ETriInt == /\ Is("triint") /\ Keep
           /\ (Degree(E.terms) <= 2 =>
                 /\ E.res = "ok" /\ Fin(E.out)
                 /\ Near(E.out * 24, 1000 * SumF(LAMBDA n : E.terms[n][1] * TriInt24(E.terms[n][2], E.terms[n][3]), 1, Len(E.terms)), 24)
                 /\ LET rest == (E.out * 24) - (1000 * SumF(LAMBDA n : E.terms[n][1] * TriInt24(E.terms[n][2], E.terms[n][3]), 1, Len(E.terms)))
                    IN  Abs(E.fine) <= 600000 /\ Abs((rest * 1000000) + (24 * E.fine)) <= 24 * 3) = TRUE

Step == ETri \/ ECMat \/ ECalcK \/ ECalcM \/ EEdge \/ ETopo \/ EStress \/ ENewState \/ EOpState \/ EMises \/ ECauchy
          \/ ESegInt \/ ETriInt
Init == TraceInit /\ el = NoEl /\ st = [k |-> "bar", s |-> <<0>>]
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ Keep)
Spec == Init /\ [][Next]_vars
Inv == Proper(el.t)
=============================================================================
