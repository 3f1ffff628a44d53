---------------------------- MODULE Constraints ----------------------------
(* What is fixed at a node, and the coordinates in which the fixed directions  *)
(* can be struck out.                                                          *)
EXTENDS Num

(* ---- merging: directions accumulate; an angle counts only while no coordinate direction is fixed ---- *)
(* a constraint: dirs = coordinate directions fixed, ang = <<>> or <<angle>> *)
Con(dirs, ang) == [dirs |-> dirs, ang |-> ang]
FreeC == Con({}, <<>>)
Given(k, a) == CASE k = "free" -> FreeC [] k = "x" -> Con({0}, <<>>) [] k = "y" -> Con({1}, <<>>)
                 [] k = "xy" -> Con({0, 1}, <<>>) [] k = "angle" -> Con({}, <<a>>)
Mean(a, b) == (a + b) \div 2          \* angles are logged in units that keep this exact
Merge(old, new) ==
    LET dirs == old.dirs \cup new.dirs
        ang == IF dirs # {} THEN <<>>
               ELSE IF Len(old.ang) = 0 THEN new.ang
               ELSE IF Len(new.ang) = 0 THEN old.ang
               ELSE <<Mean(old.ang[1], new.ang[1])>>
    IN  Con(dirs, ang)

(* ---- constrained coordinates ---- *)
(* per node [k |-> kind, t |-> <<c, s, h>>]: for an angle, cos = c/h and sin = s/h *)
TripleOK(t) == t[3] > 0 /\ LET big == Max2(Abs(t[1]), Abs(t[2]))   small == Min2(Abs(t[1]), Abs(t[2]))
                          IN  (t[3] - big) * (t[3] + big) = small * small
Keeps(con, d) == CASE con.k = "free" -> TRUE [] con.k = "x" -> d # 0 [] con.k = "y" -> d # 1
                   [] con.k = "xy" -> FALSE [] con.k = "angle" -> d # 0
Node(i) == ((i - 1) \div 2) + 1       \* of degree of freedom i = 1, 2, ...
Dim(i) == (i - 1) % 2
(* the degrees of freedom that survive, in order *)
KeptDofs(cons) == SelectSeq([i \in 1..(2 * Len(cons)) |-> i], LAMBDA i : Keeps(cons[Node(i)], Dim(i)))
H(con) == IF con.k = "angle" THEN con.t[3] ELSE 1
(* column j of T, scaled by the h of its node: the global displacement of constrained coordinate j *)
T(cons, i, j) ==
    IF Node(i) # Node(j) THEN 0
    ELSE LET con == cons[Node(i)] IN
         IF con.k # "angle" THEN (IF i = j THEN 1 ELSE 0)
         ELSE IF i = j THEN con.t[1]
         ELSE IF Dim(i) = 0 THEN -con.t[2] ELSE con.t[2]
(* entry of T' K T for the original degrees i, j, scaled by both h *)
BarEntry(cons, k, i, j) ==
    LET pi == {2 * Node(i) - 1, 2 * Node(i)}
        pj == {2 * Node(j) - 1, 2 * Node(j)}
        a == 2 * Node(i) - 1   b == 2 * Node(j) - 1
    IN    T(cons, a, i) * (k[a][b] * T(cons, b, j) + k[a][b + 1] * T(cons, b + 1, j))
        + T(cons, a + 1, i) * (k[a + 1][b] * T(cons, b, j) + k[a + 1][b + 1] * T(cons, b + 1, j))
(* entry of T' R, scaled by h *)
BarLoad(cons, r, i) == LET a == 2 * Node(i) - 1 IN T(cons, a, i) * r[a] + T(cons, a + 1, i) * r[a + 1]
(* entry of T U', scaled by h: x holds only the surviving coordinates *)
Spread(cons, x) ==
    LET kept == KeptDofs(cons) IN
    [i \in 1..(2 * Len(cons)) |-> IF \E t \in 1..Len(kept) : kept[t] = i
                                  THEN x[CHOOSE t \in 1..Len(kept) : kept[t] = i] ELSE 0]
Unbar(cons, x, i) == LET a == 2 * Node(i) - 1   f == Spread(cons, x)
                     IN  T(cons, i, a) * f[a] + T(cons, i, a + 1) * f[a + 1]

(* ---- the same for directions close to an axis, whose h is large: T is a quarter turn B plus D / h ---- *)
Ground(t) == IF Abs(t[1]) >= Abs(t[2]) THEN <<Sgn(t[1]), 0>> ELSE <<0, Sgn(t[2])>>
GroundCon(con) == IF con.k # "angle" THEN con
                  ELSE [con EXCEPT !.t = <<Ground(@)[1], Ground(@)[2], 1>>]
RestCon(con) == IF con.k # "angle" THEN [k |-> "angle", t |-> <<0, 0, 1>>]
                ELSE [con EXCEPT !.t = <<@[1] - @[3] * Ground(@)[1], @[2] - @[3] * Ground(@)[2], @[3]>>]
Grounds(cons) == [n \in 1..Len(cons) |-> GroundCon(cons[n])]
Rests(cons) == [n \in 1..Len(cons) |-> RestCon(cons[n])]
(* sum over the node of i and of j of  U(., i) k V(., j) *)
Mixed(u, v, k, i, j) ==
    LET a == 2 * Node(i) - 1   b == 2 * Node(j) - 1
    IN    T(u, a, i) * (k[a][b] * T(v, b, j) + k[a][b + 1] * T(v, b + 1, j))
        + T(u, a + 1, i) * (k[a + 1][b] * T(v, b, j) + k[a + 1][b + 1] * T(v, b + 1, j))
(* entry of T' K T times 10^4 *)
BarEntryFine(cons, k, i, j) ==
    LET g == Grounds(cons)   r == Rests(cons)
        hi == H(r[Node(i)])   hj == H(r[Node(j)])
        a == 2 * Node(i) - 1   b == 2 * Node(j) - 1
        row(x) == RDiv(10000 * (k[x][b] * T(r, b, j) + k[x][b + 1] * T(r, b + 1, j)), hj)
    IN    10000 * Mixed(g, g, k, i, j)
        + RDiv(10000 * Mixed(g, r, k, i, j), hj) + RDiv(10000 * Mixed(r, g, k, i, j), hi)
        + RDiv(T(r, a, i) * row(a) + T(r, a + 1, i) * row(a + 1), hi)
BarLoadFine(cons, x, i) == (10000 * BarLoad(Grounds(cons), x, i)) + RDiv(10000 * BarLoad(Rests(cons), x, i), H(Rests(cons)[Node(i)]))
UnbarFine(cons, x, i) ==
    LET a == 2 * Node(i) - 1   f == Spread(cons, x)   g == Grounds(cons)   r == Rests(cons)
    IN  (10000 * (T(g, i, a) * f[a] + T(g, i, a + 1) * f[a + 1]))
        + RDiv(10000 * (T(r, i, a) * f[a] + T(r, i, a + 1) * f[a + 1]), H(r[Node(i)]))
IsFine(cons) == \E n \in 1..Len(cons) : cons[n].k = "angle" /\ cons[n].t[3] > 100
=============================================================================
