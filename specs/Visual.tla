------------------------------- MODULE Visual -------------------------------
(* What a saved image shows.  Coordinates are whole numbers (in any unit, the  *)
(* view is scaled to the image), colours <<r, g, b>>, pixels <<column, row>>.  *)
EXTENDS Spatial

(* ---- the view ---- *)
(* the projected place of a node, times Unit(dim): three dimensions are seen along a fixed direction, *)
(* turned by 0.5 about y and then by 0.79 about x                                                    *)
Proj(dim, p) == IF dim = 1 THEN <<p[1], 0>> ELSE IF dim = 2 THEN <<p[1], p[2]>>
                ELSE <<(8776 * p[1]) + (4794 * p[3]), (3406 * p[1]) + (7038 * p[2]) - (6234 * p[3])>>
Coords(dim, pts) == [i \in 1..Len(pts) |-> Proj(dim, pts[i])]
Along(cs, d) == [i \in 1..Len(cs) |-> cs[i][d]]
Extent(s) == MaxS(s) - MinS(s)
(* 80 % of a size by size image for the larger range, the middle in the middle, y up; halves round up *)
Place(x, s, range, size, dir) ==
    IF range = 0 THEN (size + 1) \div 2
    ELSE LET n == (dir * ((2 * x) - (MaxS(s) + MinS(s))) * 4 * size) + (5 * size * range)
             d == 10 * range
         IN  ((2 * n) + d) \div (2 * d)
Pixels(dim, pts, size) ==
    LET cs == Coords(dim, pts)   xs == Along(cs, 1)   ys == Along(cs, 2)
        range == Max2(Extent(xs), Extent(ys))
    IN  [i \in 1..Len(pts) |-> <<Place(xs[i], xs, range, size, 1), Place(ys[i], ys, range, size, -1)>>]

(* ---- dots ---- *)
OnDot(q, p) == Abs(q[1] - p[1]) <= 1 /\ Abs(q[2] - p[2]) <= 1
NodeColour == <<<<255, 0, 0>>, <<255, 255, 0>>, <<0, 0, 255>>, <<255, 0, 255>>>>

(* ---- lines: one pixel per step along the longer direction, none further than half a pixel off ---- *)
Steep(a, b) == Abs(b[2] - a[2]) >= Abs(b[1] - a[1])
Long(a, b) == IF Steep(a, b) THEN 2 ELSE 1
Between(x, a, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
OnLine(q, a, b) ==
    LET u == Long(a, b)   v == 3 - u   du == b[u] - a[u]   dv == b[v] - a[v]
    IN  /\ Between(q[u], a[u], b[u])
        /\ 2 * Abs((du * (q[v] - a[v])) - (dv * (q[u] - a[u]))) <= Abs(du)
LineSteps(a, b) == LET u == Long(a, b) IN Min2(a[u], b[u])..Max2(a[u], b[u])
(* the pixels (one, or two when the line passes right between them) that may stand for a step *)
StepPixels(a, b, k) ==
    LET u == Long(a, b)   v == 3 - u   du == b[u] - a[u]   dv == b[v] - a[v]
        f == IF du = 0 THEN a[v] ELSE a[v] + (IF du > 0 THEN (dv * (k - a[u])) \div du ELSE ((-dv) * (k - a[u])) \div (-du))
        at(w) == IF u = 1 THEN <<k, w>> ELSE <<w, k>>
    IN  {at(w) : w \in {w \in {f, f + 1} : OnLine(at(w), a, b)}}
LineColour == <<0, 255, 0>>
Background == <<50, 50, 50>>

(* the line as it is drawn *)
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(k, w, last, d, du, dv, inc) ==
    IF k > last THEN <<>>
    ELSE <<<<k, w>>>> \o (IF d > 0 THEN Walk(k + 1, w + inc, last, d + 2 * (dv - du), du, dv, inc)
                          ELSE Walk(k + 1, w, last, d + 2 * dv, du, dv, inc))
DrawnLine(a, b) ==
    LET u == Long(a, b)   v == 3 - u
        s == IF a[u] > b[u] THEN b ELSE a
        e == IF a[u] > b[u] THEN a ELSE b
        du == e[u] - s[u]   dv == Abs(e[v] - s[v])
        pts == Walk(s[u], s[v], e[u], 2 * dv - du, du, dv, IF e[v] < s[v] THEN -1 ELSE 1)
    IN  [i \in 1..Len(pts) |-> IF u = 1 THEN pts[i] ELSE <<pts[i][2], pts[i][1]>>]

(* ---- colour scales: of the value num / den (den > 0), times den ---- *)
Clamp(x, lo, hi) == Max2(lo, Min2(hi, x))
HotTimes(num, den) == LET v == 765 * Clamp(num, 0, den) IN
                      [i \in 1..3 |-> Clamp(v - ((i - 1) * 255 * den), 0, 255 * den)]
(* peaks of height 1.5 and slope 4 at 3/4, 1/2 and 1/4 *)
RgbTimes(num, den) == [i \in 1..3 |-> Clamp(((6 * den) - Abs((16 * num) - ((16 - 4 * i) * den))) * 255, 0, 4 * 255 * den) \div 4]
(* a scale of the caller's *)
RampTimes(num, den) == <<200 * num, 10 * den, (255 * den) - (200 * num)>>
ScaleTimes(map, num, den) == IF map = "rgb" THEN RgbTimes(num, den) ELSE IF map = "ramp" THEN RampTimes(num, den) ELSE HotTimes(num, den)
ColourOK(c, map, num, den) == LET w == ScaleTimes(map, num, den) IN \A i \in 1..3 : Abs((c[i] * den) - w[i]) <= den
=============================================================================
