---------------------------- MODULE MCBoundary ----------------------------
(* Every short history of prescribing, dividing and splitting on a square      *)
(* with a triangular hole.                                                      *)
EXTENDS Boundary, Json, TLC
LOCAL INSTANCE SequencesExt
CONSTANTS Steps, Emit
VARIABLES b, h
vars == <<b, h>>
U == 36                              \* fits two divisions into two or three pieces
Outline == << <<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 4>> >>
Hole == << <<1, 1>>, <<1, 2>>, <<2, 2>> >>
Scale(p) == [i \in 1..Len(p) |-> <<U * p[i][1], U * p[i][2]>>]
Start == AddPoly(AddPoly(Empty, Scale(Outline)), Scale(Hole))
Init == b = Start /\ h = <<>>
At(p, q, j, n) == <<p[1] + (((q[1] - p[1]) * j) \div n), p[2] + (((q[2] - p[2]) * j) \div n)>>
Parts(i, n) == LET s == b.segs[i]   m == Len(b.verts) IN
               Cut(b, i, [j \in 1..(n - 1) |-> m + j], [j \in 1..(n - 1) |-> At(b.verts[s.a], b.verts[s.b], j, n)])
Cuts == SelectSeq(h, LAMBDA x : x[1] \in {"divide", "split"})
(* the walls in play: two neighbours of the outline and one of the hole, and their pieces *)
Play == {i \in 1..Len(b.segs) : \E w \in {1, 2, 5} :
            LET p == Start.verts[Start.segs[w].a]   q == Start.verts[Start.segs[w].b] IN
            Side(p, q, b.verts[b.segs[i].a]) = 0 /\ Side(p, q, b.verts[b.segs[i].b]) = 0}
Do(op, n, k) == /\ b' = n /\ h' = Append(h, <<op>> \o k)
Next == /\ Len(h) < Steps
        /\ \E i \in Play :
             LET s == b.segs[i] IN
             \/ Do("force", AddWallForce(b, s.a, s.b, <<2, 1>>), <<i, 0>>)
             \/ Do("force", AddWallForce(b, s.b, s.a, <<-5, 3>>), <<i, 1>>)
             \/ Do("con", AddWallKind(b, s.a, s.b, "x"), <<i, 0>>)
             \/ Do("con", AddWallKind(b, s.b, s.a, "y"), <<i, 1>>)
             \/ Do("pin", AddPin(b, s.a, "xy"), <<i, 0>>)
             \/ Len(Cuts) < 2 /\ Do("split", Parts(i, 2), <<i, 0>>)
             \/ Len(Cuts) < 2 /\ \E n \in 2..3 : Do("divide", Parts(i, n), <<i, n>>)
Spec == Init /\ [][Next]_vars

(* the walls are the same closed curves in the same direction *)
Succ(v) == {b.segs[i].b : i \in {j \in 1..Len(b.segs) : b.segs[j].a = v}}
Closed == \A v \in 1..Len(b.verts) : Cardinality(Succ(v)) = 1
RECURSIVE Round(_, _)
Round(v, seen) == IF v \in seen THEN seen ELSE Round(CHOOSE w \in Succ(v) : TRUE, seen \cup {v})
Curves == LET one == Round(1, {})   two == Round(5, {}) IN one \cap two = {} /\ one \cup two = 1..Len(b.verts)
Area(segs, v) == SumF(LAMBDA i : (v[segs[i].a][1] * v[segs[i].b][2]) - (v[segs[i].a][2] * v[segs[i].b][1]), 1, Len(segs))
SameArea == Area(b.segs, b.verts) = Area(Start.segs, Start.verts)
(* two segments never meet except at common corners *)
Simple == \A i, j \in 1..Len(b.segs) : i < j => ~Clash(b.verts, b.segs[i], b.segs[j])
(* every force acts on the whole of the piece it was stored for, nowhere else: total force is kept by every cut *)
L1(s) == Abs(b.verts[s.a][1] - b.verts[s.b][1]) + Abs(b.verts[s.a][2] - b.verts[s.b][2])
Total(d) == SumF(LAMBDA i : IF b.segs[i].f = <<>> THEN 0 ELSE L1(b.segs[i]) * b.segs[i].f[d], 1, Len(b.segs))
TotalIsKept == [][h'[Len(h')][1] \in {"split", "divide", "con", "pin"} => Total(1)' = Total(1) /\ Total(2)' = Total(2)]_vars
(* cutting never frees a vertex and holds only new ones *)
HeldIsKept == [][/\ Held(b) \subseteq Held(b)'
                 /\ h'[Len(h')][1] \in {"split", "divide"} => \A x \in Held(b)' \ Held(b) : x[1] > Len(b.verts)]_vars
Scenario == (Emit /\ Len(h) = Steps) => PrintT("SCN " \o ToJson([h |-> h]))
=============================================================================
