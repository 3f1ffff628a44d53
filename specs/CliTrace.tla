------------------------------ MODULE CliTrace ------------------------------
(* Runs of the program, compared with what the library says of the same files.  *)
EXTENDS Cli, TraceBase
LOCAL INSTANCE SequencesExt
VARIABLE made        \* how many runs succeeded
vars == <<made, c, l>>
Keep == UNCHANGED made
M == INSTANCE Mesh
BF == INSTANCE BodyFile
Abs(x) == IF x < 0 THEN -x ELSE x

Failed == E.code # 0 /\ E.said                     \* reported as an error
(* nine and eight digits of the largest value: equal up to the rounding of a last digit or so *)
Equal(a, b, tol) == Abs(a[1] - b[1]) <= 1 /\ Abs(((a[1] - b[1]) * 100000000) + (a[2] - b[2])) <= tol
Square(n) == <<n, n>>
Drawn(key) == \E i \in 1..Len(E.diff) : E.diff[i][1] = key /\ E.diff[i][2] <= 1
Made(sub, o) == /\ {E.files[i] : i \in 1..Len(E.files)} = Files(sub, o)
                /\ \A i \in 1..Len(E.dims) : E.dims[i] = Square(Size(o))

ELinear == /\ Is("linear")
           /\ IF Wrong("linear", E.o) \/ E.lib[Solver(E.o)] = <<>> THEN Failed /\ Keep
              ELSE /\ E.code = 0
                   /\ Len(E.vals) = 2 /\ (\A i \in 1..2 : Equal(E.vals[i], E.lib[Solver(E.o)][i], 10000000)) = TRUE
                   /\ (Made("linear", E.o) /\ Drawn(Picture("linear", E.o))) = TRUE
                   /\ made' = made + 1
(* frequencies are printed with five decimals *)
Close(x, y) == LET w == x[1] - y[1] IN w >= -1 /\ w <= 1 /\ Abs((w * 1000000) + (x[2] - y[2])) <= 20 + (Abs(y[1]) \div 1000)
EModal == /\ Is("modal")
          /\ IF Wrong("modal", E.o) \/ ~E.can THEN Failed /\ Keep
             ELSE /\ E.code = 0
                  /\ Len(E.vals) = Count(E.o) /\ Len(E.lib) = Count(E.o)
                  /\ (\A i \in 1..Len(E.vals) : E.vals[i][1] = Digits2(i - 1) /\ Close(E.vals[i][2], E.lib[i])) = TRUE
                  /\ (Made("modal", E.o)) = TRUE
                  /\ (\A i \in 1..Count(E.o) : \E j \in 1..Len(E.diff) : E.diff[j][1] = Picture("modal", E.o) /\ E.diff[j][2][i] <= 1) = TRUE
                  /\ made' = made + 1

(* ---- meshes ---- *)
Zero(f) == f = <<>> \/ f = <<0, 0>>
DirsOf(ks) == LET d == (IF ks \cap {"x", "xy"} # {} THEN {0} ELSE {}) \cup (IF ks \cap {"y", "xy"} # {} THEN {1} ELSE {}) IN
              CASE d = {} -> "free" [] d = {0} -> "x" [] d = {1} -> "y" [] OTHER -> "xy"
Len1(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2])
SumOver(S, f(_)) == FoldLeft(LAMBDA s, x : s + f(x), 0, SetToSeq(S))
MeshOf(lines, e, h, algo) ==
    LET st == BF!ReadAll(lines)   t == BF!Body(st)   m == [nodes |-> e.nodes, tris |-> e.tris]
        es == M!AllEdges(m.tris)   rim == {x \in es : <<x[2], x[1]>> \notin es}
        P(i) == t.verts[t.segs[i].a]   Q(i) == t.verts[t.segs[i].b]
        along(x, p, q) == ((x[1] - p[1]) * (q[1] - p[1])) + ((x[2] - p[2]) * (q[2] - p[2]))
        on(x, i) == /\ Abs(M!Twice(P(i), Q(i), x)) <= 2 * Len1(P(i), Q(i))
                    /\ BF!Min2(P(i)[1], Q(i)[1]) - 1 <= x[1] /\ x[1] <= BF!Max2(P(i)[1], Q(i)[1]) + 1
                    /\ BF!Min2(P(i)[2], Q(i)[2]) - 1 <= x[2] /\ x[2] <= BF!Max2(P(i)[2], Q(i)[2]) + 1
        N(k) == m.nodes[k]
        wall == [x \in rim |-> {i \in 1..Len(t.segs) : on(N(x[1]), i) /\ on(N(x[2]), i) /\ along(N(x[2]), P(i), Q(i)) > along(N(x[1]), P(i), Q(i))}]
        piece(x) == CHOOSE i \in wall[x] : TRUE
        length(x) == M!RootM(M!SqLen(N(x[1]), N(x[2])), 0, 46340)
        (* every end of a piece is at a multiple of a 64th of the wall *)
        dyadic(k, i) == LET a == IF Abs(P(i)[1] - Q(i)[1]) >= Abs(P(i)[2] - Q(i)[2]) THEN 1 ELSE 2
                            w == Abs(Q(i)[a] - P(i)[a])   d == Abs(N(k)[a] - P(i)[a]) * 64   r == d % w IN
                        r <= 130 \/ w - r <= 130
        forces == {<<{x[1], x[2]}, t.segs[piece(x)].f>> : x \in {y \in rim : ~Zero(t.segs[piece(y)].f)}}
        kinds(k) == UNION {t.segs[piece(x)].k : x \in {y \in rim : k \in {y[1], y[2]}}}
        real == SelectSeq(e.forces, LAMBDA x : x[3] # <<0, 0>>)
    IN  /\ M!Tiling(m, rim)
        /\ \A x \in rim : Cardinality(wall[x]) = 1
        /\ \A i \in 1..Len(t.segs) : LET mine == {x \in rim : piece(x) = i} IN
              Abs(SumOver(mine, LAMBDA x : Len1(N(x[1]), N(x[2]))) - Len1(P(i), Q(i))) <= 2 * Cardinality(mine)
        /\ \A i \in 1..Len(m.tris) : M!SmallEnough(m, m.tris[i])
        /\ algo = "chew" => \A x \in rim : BF!InRange(length(x), 1000, 3)
        /\ algo = "ruppert" => \A x \in rim : dyadic(x[1], piece(x))
        /\ e.mat = st.mat /\ e.cond = st.cond
        /\ Len(real) = Cardinality(forces) /\ {<<{real[i][1], real[i][2]}, real[i][3]>> : i \in 1..Len(real)} = forces
        /\ Len(e.cons) = Len(m.nodes) /\ \A k \in 1..Len(m.nodes) : e.cons[k] = DirsOf(kinds(k))
EMesh == /\ Is("mesh")
         /\ IF Wrong("mesh", E.o) THEN Failed /\ Keep
            ELSE /\ E.code = 0
                 /\ (Made("mesh", E.o) /\ E.diff <= 60) = TRUE
                 /\ E.read /\ (MeshOf(E.lines, E.model, Thousandths(E.o), Algo(E.o))) = TRUE
                 /\ made' = made + 1
EMisuse == Is("misuse") /\ E.args \in Misuse /\ Failed /\ Keep
Step == ELinear \/ EModal \/ EMesh \/ EMisuse
Init == TraceInit /\ made = 0
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ Keep)
Spec == Init /\ [][Next]_vars
=============================================================================
