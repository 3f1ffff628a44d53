---------------------------- MODULE VisualTrace ----------------------------
(* Histories of a Visualizer: points, edges, triangles, values, images.        *)
EXTENDS Visual, TraceBase
VARIABLES v,          \* [dim, pts, col, edges, tris, vals, size]
          m           \* the structure whose deformations are shown: [pts, tris, d], coordinates in a unit of its own
vars == <<v, m, c, l>>
Keep == UNCHANGED <<v, m>>
None == [dim |-> 0, pts |-> <<>>, col |-> <<>>, edges |-> <<>>, tris |-> <<>>, vals |-> <<>>, size |-> 256]
Same(n, x) == [i \in 1..n |-> x]
ENew == /\ Is("new") /\ E.res = "ok" /\ v.dim = 0
        /\ v' = [None EXCEPT !.dim = Len(E.pts[1]), !.pts = E.pts, !.col = Same(Len(E.pts), 0)]
EMixed == Is("mixed") /\ E.res = "panic" /\ Keep
EPoints == /\ Is("points")
           /\ IF v.vals = <<>> THEN /\ E.res = "ok"
                                    /\ v' = [v EXCEPT !.pts = @ \o E.pts, !.col = @ \o Same(Len(E.pts), E.col)]
              ELSE E.res = "panic" /\ Keep
EEdges == Is("edges") /\ E.res = "ok" /\ v' = [v EXCEPT !.edges = E.v]
ETris == Is("tris") /\ E.res = "ok" /\ v' = [v EXCEPT !.tris = E.v]
EVals == /\ Is("vals")
         /\ IF Len(E.v) = Len(v.pts) THEN E.res = "ok" /\ v' = [v EXCEPT !.vals = E.v]
            ELSE E.res = "panic" /\ Keep

(* the image: E.px lists the pixels that are not of the background colour, <<column, row, <<r, g, b>>>> *)
Picture(size, shown, map, px) ==
    LET pix == TLCEval(Pixels(v.dim, v.pts, size))
        n == Len(v.pts)
        dots == IF shown THEN 1..n ELSE {}
        Latest(S) == CHOOSE i \in S : \A j \in S : j <= i
        edges == {e \in {<<v.edges[k][1] + 1, v.edges[k][2] + 1>> : k \in 1..Len(v.edges)} : e[1] <= n /\ e[2] <= n}
        lines == IF shown THEN edges ELSE {}
        filled == IF v.vals = <<>> THEN {} ELSE 1..Len(v.tris)
        corners == TLCEval([k \in 1..Len(v.tris) |-> <<pix[v.tris[k][1] + 1], pix[v.tris[k][2] + 1], pix[v.tris[k][3] + 1]>>])
        corner(k) == corners[k]
        low == MinS(v.vals)   range == Extent(v.vals)
        num(k, b) == SumF(LAMBDA i : b[i] * (v.vals[v.tris[k][i] + 1] - low), 1, 3)
        shade(k, q) == LET t == corner(k)   s == Sgn(Area2(t))   b == Bary(t, q) IN <<s * num(k, b), s * Area2(t) * range>>
        painted == {<<px[i][1], px[i][2]>> : i \in 1..Len(px)}
        full == {px[i] : i \in 1..Len(px)}
        ok(q, col) ==
            LET at == {i \in dots : OnDot(q, pix[i])} IN
            IF at # {} THEN col = NodeColour[v.col[Latest(at)] + 1]
            ELSE IF col = LineColour /\ \E e \in lines : OnLine(q, pix[e[1]], pix[e[2]]) THEN TRUE
            ELSE LET in == {k \in filled : InTriangle(corner(k), q)} IN
                 /\ in # {}
                 \* equal values have no place on the scale, only a colour
                 /\ IF range = 0 THEN \A i \in 1..Len(px) : (px[i][3] = col \/ px[i][3] = LineColour \/ \E j \in dots : OnDot(px[i], pix[j]))
                    ELSE LET w == shade(Latest(in), q) IN ColourOK(col, map, w[1], w[2])
    IN  /\ \A i \in 1..Len(px) : ok(<<px[i][1], px[i][2]>>, px[i][3])
        /\ \A i \in dots : \A dx \in -1..1, dy \in -1..1 : <<pix[i][1] + dx, pix[i][2] + dy>> \in painted
        /\ \A e \in lines : \A k \in LineSteps(pix[e[1]], pix[e[2]]) :
              \E q \in StepPixels(pix[e[1]], pix[e[2]], k) :
                 q \in painted /\ (<<q[1], q[2], LineColour>> \in full \/ \E i \in dots : OnDot(q, pix[i]))
        /\ \A k \in filled : LET t == corner(k)   xs == Along(t, 1)   ys == Along(t, 2) IN
              \A x \in MinS(xs)..MaxS(xs), y \in MinS(ys)..MaxS(ys) : InTriangle(t, <<x, y>>) => <<x, y>> \in painted
EDraw == /\ Is("draw")
         /\ LET size == IF E.size = 0 THEN v.size ELSE E.size IN
            /\ E.res = "ok" /\ E.w = size /\ E.h = size
            /\ (Picture(size, E.show, E.map, E.px)) = TRUE
            /\ v' = [v EXCEPT !.size = size]
EScale == /\ Is("scale") /\ Keep
          /\ (ColourOK(E.c, E.map, E.num, E.den)) = TRUE
(* beyond the ends the scale stays as it is there, and no value at all still has a colour *)
EBeyond == /\ Is("beyond") /\ Keep
           /\ (/\ E.res = "ok" /\ \A i \in 1..3 : E.c[i] \in 0..255
               /\ (E.map = "hot" /\ E.at = "low" => E.c = <<0, 0, 0>>)
               /\ (E.map = "hot" /\ E.at = "high" => E.c = <<255, 255, 255>>)) = TRUE
(* ---- what is shown of a structure, a mesh, a boundary ---- *)
NoModel == [pts |-> <<>>, tris |-> <<>>, d |-> <<>>]
AllSides(ts) == [k \in 1..(3 * Len(ts)) |-> LET t == ts[((k - 1) \div 3) + 1] IN <<t[((k - 1) % 3) + 1], t[(k % 3) + 1]>>]
View(pts, edges, tris) == [None EXCEPT !.dim = 2, !.pts = pts, !.col = Same(Len(pts), 0), !.edges = edges, !.tris = tris]
EModel == Is("model") /\ E.res = "ok" /\ m' = [NoModel EXCEPT !.pts = E.pts, !.tris = E.tris] /\ v' = None
EMoved == Is("moved") /\ Len(E.d) = Len(m.pts) /\ m' = [m EXCEPT !.d = E.d] /\ v' = None
(* a deformed structure: every node moved by the scaled displacement, every side of an element, every element *)
Moved(s) == [i \in 1..Len(m.pts) |-> <<m.pts[i][1] + (s * m.d[i][1]), m.pts[i][2] + (s * m.d[i][2])>>]
EDeformed == /\ Is("deformed") /\ E.res = "ok" /\ UNCHANGED m
             /\ v' = View(Moved(E.s), AllSides(m.tris), m.tris)
(* a mesh: its vertices and the sides of its triangles, nothing filled *)
EMesh == Is("mesh") /\ E.res = "ok" /\ UNCHANGED m /\ v' = View(E.pts, AllSides(E.tris), <<>>)
(* a boundary: the corners of its polygons and their walls *)
RECURSIVE Joined(_), WallsOf(_, _)
Joined(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Joined(Tail(ps))
WallsOf(ps, n) == IF ps = <<>> THEN <<>>
                  ELSE LET w == Len(Head(ps)) IN [i \in 1..w |-> <<n + i - 1, n + (i % w)>>] \o WallsOf(Tail(ps), n + w)
EWalls == Is("walls") /\ E.res = "ok" /\ UNCHANGED m /\ v' = View(Joined(E.polys), WallsOf(E.polys, 0), <<>>)
Step == EModel \/ EMoved \/ EDeformed \/ EMesh \/ EWalls
        \/ (UNCHANGED m /\ (ENew \/ EMixed \/ EPoints \/ EEdges \/ ETris \/ EVals \/ EDraw \/ EScale \/ EBeyond))
Init == TraceInit /\ v = None /\ m = NoModel
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ Keep)
Spec == Init /\ [][Next]_vars
Inv == /\ Len(v.col) = Len(v.pts)
       /\ v.vals # <<>> => Len(v.vals) = Len(v.pts)
=============================================================================
