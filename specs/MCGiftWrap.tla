---------------------------- MODULE MCGiftWrap ----------------------------
(* Gift wrapping of small bodies, the frontier taken up in any order: it never *)
(* contradicts itself and always ends in the same triangulation of the body.    *)
EXTENDS Mesh, Json, TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Boundary
CONSTANTS Corners, Side3, Emit     \* Corners = 0: the bodies listed here, otherwise all polygons on a square grid
VARIABLES polys, V, Walls,     \* the body, its vertices and walls
          grain, f,            \* the hairs, and the third corner every edge then asks for
           tris, todo, stuck
vars == <<polys, V, Walls, grain, f, tris, todo, stuck>>

Bodies == << << << <<0, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>> >> >>,
             << << <<0, 0>>, <<2, 0>>, <<4, 0>>, <<4, 2>>, <<2, 2>>, <<0, 2>> >> >>,
             << << <<0, 0>>, <<3, 0>>, <<3, 1>>, <<1, 1>>, <<1, 3>>, <<0, 3>> >> >>,
             << << <<0, 0>>, <<3, 0>>, <<3, 2>>, <<2, 2>>, <<2, 1>>, <<1, 1>>, <<1, 2>>, <<0, 2>> >> >>,
             << << <<1, 0>>, <<2, 0>>, <<2, 1>>, <<3, 1>>, <<3, 2>>, <<2, 2>>, <<2, 3>>, <<1, 3>>, <<1, 2>>, <<0, 2>>, <<0, 1>>, <<1, 1>> >> >>,
             << << <<0, 0>>, <<3, 0>>, <<3, 3>>, <<0, 3>> >>, << <<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 1>> >> >>,
             << << <<0, 0>>, <<4, 0>>, <<4, 3>>, <<0, 3>> >>, << <<1, 1>>, <<1, 2>>, <<2, 1>> >>, << <<2, 2>>, <<3, 2>>, <<3, 1>> >> >>,
             << << <<0, 0>>, <<4, 1>>, <<2, 2>>, <<4, 3>>, <<0, 4>>, <<1, 2>> >> >>,
             << << <<0, 0>>, <<2, 0>>, <<2, 1>>, <<3, 1>>, <<3, 0>>, <<4, 0>>, <<4, 2>>, <<0, 2>> >> >> >>
RECURSIVE Built(_)
Built(ps) == IF ps = <<>> THEN Empty ELSE AddPoly(Built(SubSeq(ps, 1, Len(ps) - 1)), ps[Len(ps)])
ASSUME \A i \in 1..Len(Bodies) : \A k \in 1..Len(Bodies[i]) : ~Refused(Built(SubSeq(Bodies[i], 1, k - 1)), Bodies[i][k])
Grid == {<<x, y>> : x \in 0..Side3, y \in 0..Side3}
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Area2(p) == SumF(LAMBDA i : LET q == p[(i % Len(p)) + 1] IN (p[i][1] * q[2]) - (p[i][2] * q[1]), 1, Len(p))
(* no corner in which the outline turns back on itself *)
NoSpike(p) == \A i \in 1..Len(p) :
    LET a == p[i]   q == p[(i % Len(p)) + 1]   r == p[((i + 1) % Len(p)) + 1]
        u == <<q[1] - a[1], q[2] - a[2]>>   w == <<r[1] - q[1], r[2] - q[2]>>
    IN  ~(Side(a, q, r) = 0 /\ (u[1] * w[1]) + (u[2] * w[2]) < 0)
Polygons(n) == {p \in [1..n -> Grid] : /\ \A i \in 2..n : Before(p[1], p[i])
                                       /\ Cardinality({p[i] : i \in 1..n}) = n
                                       /\ Area2(p) > 0 /\ NoSpike(p) /\ ~Refused(Empty, p)}
BodySet == IF Corners = 0 THEN {Bodies[i] : i \in 1..Len(Bodies)} ELSE UNION {{<<p>> : p \in Polygons(n)} : n \in 3..Corners}

(* the hairs by which the points are moved, the same in both directions: an infinitely small multiple of these *)
Hairs == << <<41822, 17740, 49613, 24496, 53113, 46249, 56149, 49489, 43731, 35736, 2900, 56073>>,
            <<31515, 51853, 17321, 43531, 4398, 11279, 8419, 25365, 31740, 57914, 17159, 25953>>,
            <<36635, 7682, 38613, 17340, 1859, 48918, 15203, 27748, 19316, 12932, 57849, 51182>> >>
Move(p, d) == <<p[1] + d, p[2] + d>>
Sq2(a, p) == ((a[1] - p[1]) * (a[1] - p[1])) + ((a[2] - p[2]) * (a[2] - p[2]))
Circ(a, e, g, p) ==
    LET x(s) == s[1] - p[1]   y(s) == s[2] - p[2]
    IN  (Sq2(a, p) * ((x(e) * y(g)) - (x(g) * y(e)))) - (Sq2(e, p) * ((x(a) * y(g)) - (x(g) * y(a)))) + (Sq2(g, p) * ((x(a) * y(e)) - (x(e) * y(a))))
(* the coefficient of the first power of the hair in Circ: the sum over the four points of hair times slope,
   and (twelve times) the slope by five-point differences, exact for a polynomial of degree four *)
Slope(v, hair, a, e, g, p) ==
    LET at(i, k) == LET w(j) == IF j = i THEN Move(v[j], k) ELSE v[j] IN Circ(w(a), w(e), w(g), w(p))
        d(i) == (8 * (at(i, 1) - at(i, -1))) - (at(i, 2) - at(i, -2))
        h == Hairs[hair]
    IN  (h[a] * d(a)) + (h[e] * d(e)) + (h[g] * d(g)) + (h[p] * d(p))
Inside(v, hair, t, x) == LET c == Circ(v[t[1]], v[t[2]], v[t[3]], v[x]) IN IF c # 0 THEN c > 0 ELSE Slope(v, hair, t[1], t[2], t[3], x) > 0
(* ---- the search for the third corner ---- *)
ToLeft(v, e, x) == Twice(v[e[1]], v[e[2]], v[x]) > 0
Dbl(p) == <<2 * p[1], 2 * p[2]>>
On(p, q, r) == Side(p, q, r) = 0 /\ Between(p, q, r)
Visible(walls, v, e, x) ==
    LET m == <<v[e[1]][1] + v[e[2]][1], v[e[1]][2] + v[e[2]][2]>>   y == Dbl(v[x]) IN
    \A w \in walls : LET p == Dbl(v[w[1]])   q == Dbl(v[w[2]]) IN Meet(p, q, m, y) => On(p, q, m) \/ On(p, q, y)
Search(v, hair, e, sees(_)) ==
    FoldLeft(LAMBDA t, x : IF ToLeft(v, e, x) /\ (t = <<>> \/ Inside(v, hair, t, x)) /\ sees(x) THEN <<e[1], e[2], x>> ELSE t,
             <<>>, [i \in 1..Len(v) |-> i])
Third(v, walls, hair, e) ==
    LET t == Search(v, hair, e, LAMBDA x : TRUE) IN
    IF t = <<>> THEN t ELSE IF Visible(walls, v, e, t[3]) THEN t ELSE Search(v, hair, e, LAMBDA x : Visible(walls, v, e, x))
Finish(e) == f[e]

Canon(t) == LET k == CHOOSE i \in 1..3 : \A j \in 1..3 : t[i] <= t[j] IN <<t[k], t[(k % 3) + 1], t[((k + 1) % 3) + 1]>>
Init == /\ polys \in BodySet /\ grain \in 1..Len(Hairs)
        /\ LET st == Built(polys)   n == Len(st.verts) IN
           /\ V = st.verts /\ Walls = {<<st.segs[i].a, st.segs[i].b>> : i \in 1..Len(st.segs)}
           /\ f = [e \in {x \in (1..n) \X (1..n) : x[1] # x[2]} |-> Third(V, Walls, grain, e)]
        /\ tris = {} /\ todo = Walls /\ stuck = FALSE
Toggle(s, e) == IF e \in s THEN s \ {e} ELSE s \cup {<<e[2], e[1]>>}
Have == UNION {EdgesOf(t) : t \in tris}
Next == /\ ~stuck
        /\ \E e \in todo : LET t == Finish(e) IN
             IF t = <<>> THEN stuck' = TRUE /\ UNCHANGED <<polys, V, Walls, grain, f, tris, todo>>
             ELSE IF EdgesOf(t) \cap Have # {} THEN stuck' = TRUE /\ UNCHANGED <<polys, V, Walls, grain, f, tris, todo>>
             ELSE /\ tris' = tris \cup {Canon(t)}
                  /\ todo' = Toggle(Toggle(todo \ {e}, <<t[2], t[3]>>), <<t[3], t[1]>>)
                  /\ UNCHANGED <<polys, V, Walls, grain, f, stuck>>
Spec == Init /\ [][Next]_vars
NeverStuck == ~stuck
Whole == (todo = {}) => Tiling([nodes |-> V, tris |-> SetToSeq(tris)], Walls)
Area == (todo = {}) => FoldLeft(LAMBDA s, t : s + TwiceArea([nodes |-> V], t), 0, SetToSeq(tris)) = SumF(LAMBDA i : Area2(polys[i]), 1, Len(polys))
(* whatever the order: as a triangulation it is the set of what every edge by itself asks for *)
Unique == \A t \in tris : \A e \in EdgesOf(t) : e \in Walls => Canon(Finish(e)) = Canon(t)
Scenario == (Emit /\ todo = Walls /\ grain = 1) => PrintT("SCN " \o ToJson([polys |-> polys]))
=============================================================================
