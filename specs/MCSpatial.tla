----------------------------- MODULE MCSpatial -----------------------------
(* The predicates of Spatial.tla are the geometric ones: every triangle and    *)
(* point of a grid, every tetrahedron on the corners of a cube with points in  *)
(* and around it.                                                             *)
EXTENDS Spatial, Json, TLC
CONSTANTS N, Emit
VARIABLES kind, t, p
vars == <<kind, t, p>>
Grid == {<<x, y>> : x \in 0..N, y \in 0..N}
Cube == {<<x, y, z>> : x \in 0..1, y \in 0..1, z \in 0..1}
Probe == Cube \cup {<<-1, 0, 0>>, <<2, 2, 1>>, <<1, 2, 0>>, <<0, 1, -1>>}
Init == \/ (kind = "flat" /\ t \in {<<a, b, d>> : a \in Grid, b \in Grid, d \in Grid} /\ p \in Grid)
        \/ (kind = "solid" /\ t \in {<<a, b, d, e>> : a \in Cube, b \in Cube, d \in Cube, e \in Cube} /\ p \in Probe)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Turn == <<t[2], t[3], t[1]>>
FlatLaws ==
    /\ Bary(t, p)[1] + Bary(t, p)[2] + Bary(t, p)[3] = Area2(t)
    \* the coordinates reproduce the point
    /\ \A d \in 1..2 : (Bary(t, p)[1] * t[1][d]) + (Bary(t, p)[2] * t[2][d]) + (Bary(t, p)[3] * t[3][d]) = Area2(t) * p[d]
    \* any listing
    /\ Area2(Swap(t, 1, 2)) = -Area2(t) /\ Area2(Turn) = Area2(t)
    /\ InTriangle(Swap(t, 1, 2), p) = InTriangle(t, p) /\ InTriangle(Turn, p) = InTriangle(t, p)
    /\ Circle(Swap(t, 1, 2), p) = -Circle(t, p) /\ Circle(Turn, p) = Circle(t, p)
    \* the circle is the set of points as far from the centre as the corners are
    /\ LET q(v) == LET dx == (2 * Area2(t) * (v[1] - t[1][1])) - Centre(t)[1]
                       dy == (2 * Area2(t) * (v[2] - t[1][2])) - Centre(t)[2] IN (dx * dx) + (dy * dy)
       IN  /\ \A i \in 1..3 : q(t[i]) = q(t[1])
           /\ Sgn(q(t[1]) - q(p)) * Sgn(Area2(t)) = Sgn(Circle(t, p)) \/ Area2(t) = 0
    \* what is inside the triangle is inside the circle, but for the corners
    /\ (InTriangle(t, p) /\ Circle(t, p) = 0) => \E i \in 1..3 : p = t[i]
    /\ InTriangle(t, p) => Sgn(Area2(t)) * Circle(t, p) >= 0
SolidLaws ==
    /\ Tetra(Swap(t, 1, 2)) = -Tetra(t) /\ Tetra(Swap(t, 2, 4)) = -Tetra(t)
    /\ Sphere(Swap(t, 1, 3), p) = -Sphere(t, p) /\ Sphere(Swap(t, 3, 4), p) = -Sphere(t, p)
    /\ (\E i \in 1..4 : t[i] = p) => Sphere(t, p) = 0
    \* a point of the tetrahedron is in the sphere
    /\ LET with(i) == Tetra([t EXCEPT ![i] = p]) IN
       (Tetra(t) > 0 /\ \A i \in 1..4 : with(i) >= 0) => (Sphere(t, p) > 0 \/ \E i \in 1..4 : t[i] = p)
    \* the corners of the cube lie on one sphere
    /\ p \in Cube => Sphere(t, p) = 0
Laws == IF kind = "flat" THEN FlatLaws ELSE SolidLaws
Out == Emit => PrintT("SCN " \o ToJson([k |-> kind, t |-> t, p |-> p]))
=============================================================================
