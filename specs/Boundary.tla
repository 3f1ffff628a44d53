------------------------------ MODULE Boundary ------------------------------
(* The walls of a body: closed curves of directed segments, cut into smaller   *)
(* and smaller pieces, with what is prescribed on them.                         *)
EXTENDS Num
LOCAL INSTANCE SequencesExt

(* a segment: from vertex a to vertex b, f = <<>> or the distributed force, k = the kinds of constraint on it *)
Seg(a, b) == [a |-> a, b |-> b, f |-> <<>>, k |-> {}]
(* state: verts = positions, segs = the pieces in order, curve after curve, base = the walls as they were stored,
   pins = <<vertex, kind>> of the constraints of single vertices *)
Empty == [verts |-> <<>>, segs |-> <<>>, base |-> <<>>, pins |-> {}]
Pairs(segs) == [i \in 1..Len(segs) |-> <<segs[i].a, segs[i].b>>]

(* ---- when two closed segments share a point ---- *)
Side(p, q, r) == Sgn(((q[1] - p[1]) * (r[2] - p[2])) - ((q[2] - p[2]) * (r[1] - p[1])))
Between(p, q, r) == /\ Min2(p[1], q[1]) <= r[1] /\ r[1] <= Max2(p[1], q[1])
                    /\ Min2(p[2], q[2]) <= r[2] /\ r[2] <= Max2(p[2], q[2])
Meet(p, q, r, s) ==
    LET d1 == Side(p, q, r)  d2 == Side(p, q, s)  d3 == Side(r, s, p)  d4 == Side(r, s, q) IN
    \/ d1 * d2 < 0 /\ d3 * d4 < 0
    \/ d1 = 0 /\ Between(p, q, r)
    \/ d2 = 0 /\ Between(p, q, s)
    \/ d3 = 0 /\ Between(r, s, p)
    \/ d4 = 0 /\ Between(r, s, q)
ShareV(s, t) == {s.a, s.b} \cap {t.a, t.b} # {}
(* the closed polygon through the vertices n+1 .. n+m *)
Ring(n, m) == [i \in 1..m |-> Seg(n + i, n + (IF i = m THEN 1 ELSE i + 1))]
Clash(verts, s, t) == ~ShareV(s, t) /\ Meet(verts[s.a], verts[s.b], verts[t.a], verts[t.b])
(* a polygon is refused when it touches what is there, or itself apart from common corners *)
Refused(st, pts) ==
    LET v == st.verts \o pts   r == Ring(Len(st.verts), Len(pts)) IN
    \/ \E i, j \in 1..Len(r) : i < j /\ Clash(v, r[i], r[j])
    \/ \E i \in 1..Len(r), j \in 1..Len(st.segs) : Clash(v, r[i], st.segs[j])
AddPoly(st, pts) == LET r == Ring(Len(st.verts), Len(pts)) IN
                    [st EXCEPT !.verts = @ \o pts, !.segs = @ \o r, !.base = @ \o Pairs(r)]

(* ---- prescribing ---- *)
Is2(s, a, b) == (s.a = a /\ s.b = b) \/ (s.a = b /\ s.b = a)
Plus(f, g) == IF f = <<>> THEN g ELSE <<f[1] + g[1], f[2] + g[2]>>
AddWallForce(st, a, b, g) == [st EXCEPT !.segs = [i \in 1..Len(@) |-> IF Is2(@[i], a, b) THEN [@[i] EXCEPT !.f = Plus(@, g)] ELSE @[i]]]
AddWallKind(st, a, b, k) == [st EXCEPT !.segs = [i \in 1..Len(@) |-> IF Is2(@[i], a, b) THEN [@[i] EXCEPT !.k = @ \cup {k}] ELSE @[i]]]
AddPin(st, v, k) == [st EXCEPT !.pins = @ \cup {<<v, k>>}]
(* what the boundary then says *)
Zero(f) == f = <<>> \/ f = <<0, 0>>
Loads(st) == {<<Min2(s.a, s.b), Max2(s.a, s.b), s.f>> : s \in {st.segs[i] : i \in {j \in 1..Len(st.segs) : ~Zero(st.segs[j].f)}}}
Held(st) == st.pins \cup UNION {{<<st.segs[i].a, k>>, <<st.segs[i].b, k>>} : <<i, k>> \in
                {<<j, k>> \in (1..Len(st.segs)) \X (UNION {st.segs[j].k : j \in 1..Len(st.segs)}) : k \in st.segs[j].k}}

(* ---- cutting segment i at the new vertices, in order; the pieces inherit everything ---- *)
Pieces(s, mids) == [j \in 1..(Len(mids) + 1) |-> [s EXCEPT !.a = IF j = 1 THEN s.a ELSE mids[j - 1],
                                                             !.b = IF j > Len(mids) THEN s.b ELSE mids[j]]]
Cut(st, i, mids, pos) == [st EXCEPT !.verts = @ \o pos,
                                    !.segs = SubSeq(@, 1, i - 1) \o Pieces(@[i], mids) \o SubSeq(@, i + 1, Len(@))]

(* ---- the length of the pieces after a division: from h to the root of 3 times h ---- *)
(* d, h in the same units, tol the uncertainty of d *)
InRange(d, h, tol) == d + tol >= h - 1 /\ (d - tol) * 1000 <= 1733 * (h + 1)
(* n equal pieces surely do, or possibly do *)
SurelyCut(d, n, h, tol) == n * (h + 1) <= d - tol /\ (d + tol) * 1000 <= n * (1732 * (h - 1))
MayCut(d, n, h, tol) == n * (h - 1) <= d + tol /\ (d - tol) * 1000 <= n * (1733 * (h + 1))
=============================================================================
