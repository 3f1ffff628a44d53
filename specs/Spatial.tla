------------------------------ MODULE Spatial ------------------------------
(* Points of up to three dimensions and the predicates on them, exactly.       *)
EXTENDS Num

(* ---- plane ---- *)
Cross(a, b, p) == ((b[1] - a[1]) * (p[2] - a[2])) - ((b[2] - a[2]) * (p[1] - a[1]))
Area2(t) == Cross(t[1], t[2], t[3])
(* barycentric coordinates are Bary(t, p) / Area2(t) *)
Bary(t, p) == <<Cross(t[2], t[3], p), Cross(t[3], t[1], p), Cross(t[1], t[2], p)>>
(* inside or on the border, whichever way round the corners are listed; a triangle without area holds nothing *)
InTriangle(t, p) == LET s == Sgn(Area2(t)) IN s # 0 /\ \A i \in 1..3 : s * Bary(t, p)[i] >= 0
OnBorder(t, p) == InTriangle(t, p) /\ \E i \in 1..3 : Bary(t, p)[i] = 0
Sq2(a, p) == ((a[1] - p[1]) * (a[1] - p[1])) + ((a[2] - p[2]) * (a[2] - p[2]))
(* positive: strictly inside the circle through a counterclockwise triangle *)
Circle(t, p) ==
    LET x(i) == t[i][1] - p[1]   y(i) == t[i][2] - p[2]   q(i) == Sq2(t[i], p)
    IN  (q(1) * ((x(2) * y(3)) - (x(3) * y(2)))) - (q(2) * ((x(1) * y(3)) - (x(3) * y(1)))) + (q(3) * ((x(1) * y(2)) - (x(2) * y(1))))
(* the circumcentre is t[1] + Centre(t) / (2 * Area2(t)) *)
Centre(t) == LET ux == t[2][1] - t[1][1]   uy == t[2][2] - t[1][2]
                 vx == t[3][1] - t[1][1]   vy == t[3][2] - t[1][2]
                 u2 == (ux * ux) + (uy * uy)   v2 == (vx * vx) + (vy * vy)
             IN  <<(vy * u2) - (uy * v2), (ux * v2) - (vx * u2)>>

(* ---- space ---- *)
Det3(a, b, d) == (a[1] * ((b[2] * d[3]) - (b[3] * d[2]))) - (a[2] * ((b[1] * d[3]) - (b[3] * d[1]))) + (a[3] * ((b[1] * d[2]) - (b[2] * d[1])))
Diff(a, p) == [i \in 1..3 |-> a[i] - p[i]]
(* sign of the determinant of the rows (x, y, z, 1) *)
Tetra(t) == Det3(Diff(t[1], t[4]), Diff(t[2], t[4]), Diff(t[3], t[4]))
Sq3(a) == (a[1] * a[1]) + (a[2] * a[2]) + (a[3] * a[3])
(* positive: strictly inside the sphere through a positive tetrahedron *)
Sphere(t, p) ==
    LET d(i) == Diff(t[i], p) IN
      (Sq3(d(4)) * Det3(d(1), d(2), d(3))) - (Sq3(d(3)) * Det3(d(1), d(2), d(4)))
    + (Sq3(d(2)) * Det3(d(1), d(3), d(4))) - (Sq3(d(1)) * Det3(d(2), d(3), d(4)))

(* ---- points: [n, v], v in sixteenths ---- *)
Pt(v) == [n |-> Len(v), v |-> v]
PAdd(a, b) == Pt([i \in 1..a.n |-> a.v[i] + b.v[i]])
PSub(a, b) == Pt([i \in 1..a.n |-> a.v[i] - b.v[i]])
PMul(a, k) == Pt([i \in 1..a.n |-> k * a.v[i]])
PMidTwice(a, b) == [i \in 1..Min2(a.n, b.n) |-> a.v[i] + b.v[i]]
PDot(a, b) == SumF(LAMBDA i : a.v[i] * b.v[i], 1, Min2(a.n, b.n))
PSquare(a) == PDot(a, a)
=============================================================================
