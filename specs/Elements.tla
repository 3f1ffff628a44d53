------------------------------ MODULE Elements ------------------------------
(* Linear triangles on integer coordinates: strain, stiffness, mass, stress.   *)
(* A material [c, t, e, p, q, rho] has modulus e, Poisson ratio p/q, density   *)
(* rho; c is "stress", "strain" (both with thickness t) or "axi" (the radius   *)
(* is the thickness).  A triangle is a sequence of three points <<x, y>>.      *)
EXTENDS Num
LOCAL INSTANCE TLC

ExactDiv(a, b) == IF Assert(a % b = 0, <<"not an integer coefficient", a, b>>) THEN a \div b ELSE 0
(* C11 = C22 = C44, the coupling of normal strains, and the shear modulus *)
C11(m) == IF m.c = "stress" THEN ExactDiv(m.e * m.q * m.q, m.q * m.q - m.p * m.p)
          ELSE ExactDiv(m.e * m.q * (m.q - m.p), (m.q + m.p) * (m.q - (2 * m.p)))
C12(m) == IF m.c = "stress" THEN ExactDiv(m.e * m.p * m.q, m.q * m.q - m.p * m.p)
          ELSE ExactDiv(m.e * m.p * m.q, (m.q + m.p) * (m.q - (2 * m.p)))
C33(m) == ExactDiv(m.e * m.q, 2 * (m.q + m.p))
Lam(m) == [a |-> C11(m), b |-> C12(m), g |-> C33(m)]      \* evaluate once per material

Nx(i) == (i % 3) + 1
(* derivatives of the interpolation functions, times the doubled signed area *)
Bx(t, i) == t[Nx(i)][2] - t[Nx(Nx(i))][2]
By(t, i) == t[Nx(Nx(i))][1] - t[Nx(i)][1]
A2(t) == (t[1][1] * Bx(t, 1)) + (t[2][1] * Bx(t, 2)) + (t[3][1] * Bx(t, 3))
Proper(t) == A2(t) # 0

(* ---- plane stiffness, times 2 |A2| / thickness; local degrees 1..6 = (x1, y1, x2, y2, x3, y3) ---- *)
LNode(i) == ((i - 1) \div 2) + 1
LDim(i) == (i - 1) % 2
PlaneK(t, lam, i, j) ==
    LET bi == Bx(t, LNode(i))   ci == By(t, LNode(i))
        bj == Bx(t, LNode(j))   cj == By(t, LNode(j))
    IN  CASE LDim(i) = 0 /\ LDim(j) = 0 -> (lam.a * bi * bj) + (lam.g * ci * cj)
          [] LDim(i) = 1 /\ LDim(j) = 1 -> (lam.a * ci * cj) + (lam.g * bi * bj)
          [] LDim(i) = 0 /\ LDim(j) = 1 -> (lam.b * bi * cj) + (lam.g * ci * bj)
          [] OTHER -> (lam.b * ci * bj) + (lam.g * bi * cj)
PlaneKMat(t, lam) == Mat(6, 6, LAMBDA i, j : PlaneK(t, lam, i, j))

(* ---- axisymmetric stiffness, times 6 |A2|: the part which is the integral of a polynomial ---- *)
RSum(t) == t[1][1] + t[2][1] + t[3][1]
AxiK(t, lam, i, j) ==
    LET bi == Bx(t, LNode(i))   ci == By(t, LNode(i))
        bj == Bx(t, LNode(j))   cj == By(t, LNode(j))
        a2 == A2(t)
        base == PlaneK(t, lam, i, j) * RSum(t)
    IN  CASE LDim(i) = 0 /\ LDim(j) = 0 -> base + (lam.b * (bi + bj) * a2)
          [] LDim(i) = 1 /\ LDim(j) = 1 -> base
          [] LDim(i) = 0 /\ LDim(j) = 1 -> base + (lam.b * cj * a2)
          [] OTHER -> base + (lam.b * ci * a2)
(* the hoop part couples radial degrees: 4 a integral(h_i h_j / r), which lies between this over rmax and over rmin *)
Hoop4(t, lam, i, j) == IF LDim(i) = 0 /\ LDim(j) = 0
                       THEN lam.a * A2(t) * A2(t) * (IF i = j THEN 2 ELSE 1) ELSE 0
RMin(t) == Min2(t[1][1], Min2(t[2][1], t[3][1]))
RMax(t) == Max2(t[1][1], Max2(t[2][1], t[3][1]))

(* ---- consistent mass, times 24 / (density thickness |A2|) in plane ---- *)
PlaneM(i, j) == IF LDim(i) # LDim(j) THEN 0 ELSE IF i = j THEN 2 ELSE 1

(* ---- strains and stresses of nodal displacements u[node] = <<u, v>>, times A2 ---- *)
Strain(t, u) ==
    << (Bx(t, 1) * u[1][1]) + (Bx(t, 2) * u[2][1]) + (Bx(t, 3) * u[3][1]),
       (By(t, 1) * u[1][2]) + (By(t, 2) * u[2][2]) + (By(t, 3) * u[3][2]),
       (By(t, 1) * u[1][1]) + (By(t, 2) * u[2][1]) + (By(t, 3) * u[3][1])
         + (Bx(t, 1) * u[1][2]) + (Bx(t, 2) * u[2][2]) + (Bx(t, 3) * u[3][2]) >>
PlaneStress(t, lam, u) ==
    LET s == Strain(t, u)
    IN  << (lam.a * s[1]) + (lam.b * s[2]), (lam.b * s[1]) + (lam.a * s[2]), lam.g * s[3] >>
(* at node n of an axisymmetric element, times A2 r_n: the hoop strain there is u_n / r_n *)
AxiStress(t, lam, u, n) ==
    LET s == Strain(t, u)   r == t[n][1]   hoop == A2(t) * u[n][1]
    IN  << (r * ((lam.a * s[1]) + (lam.b * s[2]))) + (lam.b * hoop),
           (r * ((lam.b * s[1]) + (lam.a * s[2]))) + (lam.b * hoop),
           r * lam.g * s[3],
           (r * lam.b * (s[1] + s[2])) + (lam.a * hoop) >>

(* ---- scalar facts about stress states ---- *)
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) ==        \* lo^2 <= n < hi^2
    IF hi - lo <= 1 THEN lo
    ELSE LET mid == (lo + hi) \div 2 IN IF mid <= n \div mid THEN ISqrtIn(n, mid, hi) ELSE ISqrtIn(n, lo, mid)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtIn(n, 1, 46341)
Sq(x) == x * x
(* twice the square of the von Mises value *)
Mises2(type, s) ==
    CASE type = "bar" -> 2 * Sq(s[1])
      [] type = "plane" -> Sq(s[1] - s[2]) + Sq(s[1]) + Sq(s[2]) + (6 * Sq(s[3]))
      [] type = "axi" -> Sq(s[1] - s[2]) + Sq(s[2] - s[4]) + Sq(s[1] - s[4]) + (6 * Sq(s[3]))
      [] type = "solid" -> Sq(s[1] - s[2]) + Sq(s[2] - s[3]) + Sq(s[1] - s[3])
                             + (6 * (Sq(s[4]) + Sq(s[5]) + Sq(s[6])))
Cauchy(type, s) ==
    CASE type = "bar" -> << <<s[1]>> >>
      [] type = "plane" -> << <<s[1], s[3]>>, <<s[3], s[2]>> >>
      [] type = "solid" -> << <<s[1], s[4], s[6]>>, <<s[4], s[2], s[5]>>, <<s[6], s[5], s[3]>> >>
(* the length of a segment in thousandths *)
Length1000(a, b) == ISqrt((Sq(a[1] - b[1]) + Sq(a[2] - b[2])) * 1000000)
(* ---- integrals of polynomials, given as sequences of terms <<k, i, j>> = k x^i y^j ---- *)
(* coefficients of (x0 + dx t)^i (y0 + dy t)^j *)
RECURSIVE PolyTimes(_, _, _, _)
PolyTimes(p, x0, dx, times) ==
    IF times = 0 THEN p
    ELSE PolyTimes([n \in 1..(Len(p) + 1) |-> (IF n <= Len(p) THEN p[n] * x0 ELSE 0) + (IF n > 1 THEN p[n - 1] * dx ELSE 0)],
                   x0, dx, times - 1)
(* 840 times the mean of the integrand over the segment; 840 = lcm(1..8) *)
SegMean840(ts, a, b) ==
    SumF(LAMBDA n : LET p == PolyTimes(PolyTimes(<<ts[n][1]>>, a[1], b[1] - a[1], ts[n][2]), a[2], b[2] - a[2], ts[n][3])
                    IN  SumF(LAMBDA i : p[i] * (840 \div i), 1, Len(p)), 1, Len(ts))
(* over the unit triangle, times 24: 12, 4, 4, 2, 1, 2 for 1, r, s, r^2, rs, s^2 *)
TriInt24(i, j) == CASE i = 0 /\ j = 0 -> 12 [] i + j = 1 -> 4 [] i = 1 /\ j = 1 -> 1 [] OTHER -> 2
=============================================================================
