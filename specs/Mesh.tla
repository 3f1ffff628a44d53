-------------------------------- MODULE Mesh --------------------------------
(* What a finished mesh must be.  m = [nodes, tris]: node positions in          *)
(* thousandths of the requested size, triangles of node numbers from 1.         *)
EXTENDS Num
LOCAL INSTANCE SequencesExt

EdgesOf(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
AllEdges(tris) == UNION {EdgesOf(tris[i]) : i \in 1..Len(tris)}
Twice(p, q, r) == ((q[1] - p[1]) * (r[2] - p[2])) - ((q[2] - p[2]) * (r[1] - p[1]))
TwiceArea(m, t) == Twice(m.nodes[t[1]], m.nodes[t[2]], m.nodes[t[3]])

(* positive triangles whose edges cancel in pairs of opposite direction except for the walls: the boundary of the
   sum of the triangles is then the boundary of the body, so every point of the body lies in exactly one triangle
   and every point outside in none, and no node lies inside an edge *)
Tiling(m, walls) ==
    LET n == Len(m.nodes)   k == Len(m.tris)   es == AllEdges(m.tris) IN
    /\ \A i \in 1..k : Len(m.tris[i]) = 3 /\ \A j \in 1..3 : m.tris[i][j] \in 1..n
    /\ \A i \in 1..k : TwiceArea(m, m.tris[i]) > 0
    /\ Cardinality(es) = 3 * k
    /\ {e \in es : <<e[2], e[1]>> \notin es} = walls
    /\ UNION {{e[1], e[2]} : e \in es} = 1..n

(* ---- size and shape ---- *)
RECURSIVE RootM(_, _, _)
RootM(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET k == (lo + hi) \div 2 IN IF k * k <= x THEN RootM(x, k, hi) ELSE RootM(x, lo, k)
(* side lengths in ten thousandths of the size, if they are at most about twice the size *)
SqLen(p, q) == ((p[1] - q[1]) * (p[1] - q[1])) + ((p[2] - q[2]) * (p[2] - q[2]))
Near2(p, q) == Abs(p[1] - q[1]) <= 2020 /\ Abs(p[2] - q[2]) <= 2020 /\ SqLen(p, q) <= 2020 * 2020
Len10(p, q) == RootM(100 * SqLen(p, q), 0, 46340)
Sides(m, t) == LET p == m.nodes[t[1]]   q == m.nodes[t[2]]   r == m.nodes[t[3]] IN <<Len10(p, q), Len10(q, r), Len10(r, p)>>
(* circumradius = a b c / (2 * twice the area); the area is off by at most the sides *)
Slack(s) == (s[1] + s[2] + s[3]) \div 10
SmallEnough(m, t) ==
    LET p == m.nodes[t[1]]   q == m.nodes[t[2]]   r == m.nodes[t[3]] IN
    /\ Near2(p, q) /\ Near2(q, r) /\ Near2(r, p)
    /\ LET s == Sides(m, t) IN ((s[1] * s[2]) \div 10000) * s[3] <= 202 * (TwiceArea(m, t) + Slack(s))
(* circumradius at most 1.415 times the shortest side *)
Shapely(m, t) == LET s == Sides(m, t)   a == MinS(s)   big == MaxS(s)   mid == (s[1] + s[2] + s[3]) - a - big IN
                 (big * mid) <= 285 * (TwiceArea(m, t) + Slack(s))
(* for algorithms that keep the triangulation Delaunay: the node across an inner edge is not well inside the circle *)
=============================================================================
