-------------------------- MODULE BoundaryEvents --------------------------
(* The events of histories of a boundary: polygons, attributes, divisions,     *)
(* splits.                                                                      *)
EXTENDS Boundary, TraceBase
LOCAL INSTANCE SequencesExt
VARIABLES b
vars == <<b, c, l>>
Keep == UNCHANGED b
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m)
Dist(p, q) == LET dx == p[1] - q[1]   dy == p[2] - q[2] IN Root((dx * dx) + (dy * dy), 0, 46340)

(* what the observers of the boundary say must be what state t says *)
Shows(o, t) ==
    /\ o.verts = t.verts
    /\ o.walls = Pairs(t.segs)
    /\ o.base = t.base
    /\ LET real == SelectSeq(o.forces, LAMBDA x : x[3] # <<0, 0>>) IN
       /\ {<<Min2(x[1], x[2]), Max2(x[1], x[2]), x[3]>> : x \in {real[i] : i \in 1..Len(real)}} = Loads(t)
       /\ Len(real) = Cardinality(Loads(t))
    /\ {<<x[1], x[2]>> : x \in {o.cons[i] : i \in 1..Len(o.cons)}} = Held(t)
Finite(o) == \A i \in 1..Len(o.verts) : AllFin(o.verts[i])

EPoly == /\ Is("poly")
         /\ IF Refused(b, E.pts) THEN E.res = "panic" /\ Keep
            ELSE LET t == AddPoly(b, E.pts) IN
                 /\ E.res = "ok" /\ E.ids = [i \in 1..Len(E.pts) |-> Len(b.verts) + i]
                 /\ (Shows(E.obs, t)) = TRUE /\ b' = t
Now(t) == E.res = "ok" /\ (Shows(E.obs, t)) = TRUE /\ b' = t
EForce == Is("force") /\ Now(AddWallForce(b, E.s[1], E.s[2], E.f))
ECon == Is("con") /\ Now(AddWallKind(b, E.s[1], E.s[2], E.k))
EPin == Is("pin") /\ Now(AddPin(b, E.v, E.k))

(* the observed walls as a refinement of those of the state: where the pieces of segment i begin and end *)
Ends(w, n) == SelectSeq([i \in 1..Len(w) |-> i], LAMBDA i : w[i][2] <= n)
Mids(w, ends, i) == [j \in 1..(ends[i] - 1 - (IF i = 1 THEN 0 ELSE ends[i - 1])) |-> w[(IF i = 1 THEN 0 ELSE ends[i - 1]) + j][2]]
Refined(old, o) ==
    LET ends == Ends(o.walls, Len(old.verts)) IN
    [old EXCEPT !.verts = o.verts,
                !.segs = Flat([i \in 1..Len(@) |-> Pieces(@[i], Mids(o.walls, ends, i))])]
(* only the segments in D are cut, every new vertex is used once, lies on its segment and in order *)
Refines(old, o, D) ==
    LET n == Len(old.verts)   ends == Ends(o.walls, n)
        all == Flat([i \in 1..Len(old.segs) |-> Mids(o.walls, ends, i)])
        place(i) == LET s == old.segs[i]   p == old.verts[s.a]   q == old.verts[s.b]   m == Mids(o.walls, ends, i)
                        tol == 2 * (Abs(q[1] - p[1]) + Abs(q[2] - p[2]) + 1)
                        w(j) == IF j = 0 THEN p ELSE IF j > Len(m) THEN q ELSE o.verts[m[j]]
                    IN  \A j \in 1..(Len(m) + 1) :
                          /\ Abs(((q[1] - p[1]) * (w(j)[2] - p[2])) - ((q[2] - p[2]) * (w(j)[1] - p[1]))) <= tol
                          /\ ((w(j)[1] - w(j - 1)[1]) * Sgn(q[1] - p[1])) + ((w(j)[2] - w(j - 1)[2]) * Sgn(q[2] - p[2])) >= 0
    IN  /\ Finite(o)
        /\ Len(o.verts) >= n /\ SubSeq(o.verts, 1, n) = old.verts
        /\ \A i \in 1..Len(o.walls) : o.walls[i][1] \in 1..Len(o.verts) /\ o.walls[i][2] \in 1..Len(o.verts)
        /\ Len(ends) = Len(old.segs)
        /\ Len(all) = Len(o.verts) - n /\ ToSet(all) = (n + 1)..Len(o.verts)
        /\ \A i \in 1..Len(old.segs) : (i \notin D => Len(Mids(o.walls, ends, i)) = 0) /\ place(i)
Exactly(i) == {j \in 1..Len(b.segs) : b.segs[j].a = i[1] /\ b.segs[j].b = i[2]}
(* every piece of the segments in D is within the promised range *)
PiecesInRange(t, h, D) == \A i \in D : LET d == Dist(t.verts[t.segs[i].a], t.verts[t.segs[i].b]) IN InRange(d, h, 3)
Length(i) == Dist(b.verts[b.segs[i].a], b.verts[b.segs[i].b])
Some(i, h, P(_, _, _, _)) == \E n \in 1..((Length(i) \div h) + 2) : P(Length(i), n, h, 1)
(* the pieces of the segments of D in the new numbering *)
From(old, t, D) == LET n == Len(old.verts) IN
    {j \in 1..Len(t.segs) : \E i \in D : LET ends == Ends(Pairs(t.segs), n) IN j <= ends[i] /\ j > (IF i = 1 THEN 0 ELSE ends[i - 1])}
EDivide == /\ Is("divide")
           /\ LET D == Exactly(E.s) IN
              IF D = {} THEN E.res = "panic" /\ (Shows(E.obs, b)) = TRUE /\ Keep
              ELSE \/ /\ E.res = "panic" /\ (\E i \in D : ~Some(i, E.h, SurelyCut)) = TRUE
                      /\ (Shows(E.obs, b)) = TRUE /\ Keep
                   \/ /\ E.res = "ok" /\ (\A i \in D : Some(i, E.h, MayCut)) = TRUE
                      /\ (Refines(b, E.obs, D)) = TRUE
                      /\ LET t == Refined(b, E.obs) IN
                         /\ (Shows(E.obs, t) /\ PiecesInRange(t, E.h, From(b, t, D))) = TRUE
                         /\ b' = t
(* when some wall cannot be divided the boundary is left half divided, and the history ends *)
EDivideAll == /\ Is("divideall")
              /\ LET D == 1..Len(b.segs) IN
                 \/ E.res = "panic" /\ (\E i \in D : ~Some(i, E.h, SurelyCut)) = TRUE /\ Keep
                 \/ /\ E.res = "ok" /\ (\A i \in D : Some(i, E.h, MayCut)) = TRUE
                    /\ (Refines(b, E.obs, D)) = TRUE
                    /\ LET t == Refined(b, E.obs) IN
                       /\ (Shows(E.obs, t) /\ PiecesInRange(t, E.h, 1..Len(t.segs))) = TRUE
                       /\ b' = t
ESplit == /\ Is("split")
          /\ LET D == Exactly(E.s)   m == Len(b.verts) + 1 IN
             IF D = {} THEN E.res = "panic" /\ (Shows(E.obs, b)) = TRUE /\ Keep
             ELSE LET i == CHOOSE j \in D : TRUE
                      p == b.verts[E.s[1]]   q == b.verts[E.s[2]]
                      t == Cut(b, i, <<m>>, <<E.obs.verts[m]>>) IN
                  /\ E.res = "ok" /\ E.out = <<E.s[1], m, m, E.s[2], m>>
                  /\ (Len(E.obs.verts) = m /\ \A k \in 1..2 : Abs((2 * E.obs.verts[m][k]) - (p[k] + q[k])) <= 3) = TRUE
                  /\ (Shows(E.obs, t)) = TRUE
                  /\ b' = t
=============================================================================
