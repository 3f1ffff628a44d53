------------------------------ MODULE MatStore ------------------------------
(* Three registers, each holding a matrix in one of the library's storage    *)
(* schemes.  The abstract state of a register is its kind, its shape, its     *)
(* values, and the set `st` of locations it is known to be able to store at;  *)
(* every operation of the API is a function from registers to registers, and  *)
(* each is enabled only under the precondition the API documents.             *)
EXTENDS Num, TLC

Kinds == {"lin", "const", "dict", "crow", "low", "upp", "diag", "lenv", "bienv"}
FullKinds == {"lin", "const", "dict"}

(* which locations a layout can hold at all *)
CanHold(k, i, j) ==
    CASE k \in {"low", "lenv"} -> j <= i
      [] k = "upp" -> i <= j
      [] k = "diag" -> i = j
      [] OTHER -> TRUE

Locs(r, n) == (1..r) \X (1..n)
Mk(k, r, n, m, st) == [k |-> k, r |-> r, n |-> n, m |-> m, st |-> st]
Nil == Mk("none", 0, 0, <<>>, {})

NonZero(r, n, m) == {p \in Locs(r, n) : m[p[1]][p[2]] # 0}

(* what a freshly built matrix of kind k is certain to have room for *)
RowHull(r, n, m) == {p \in Locs(r, n) :
    /\ \E j \in 1..p[2] : m[p[1]][j] # 0
    /\ \E j \in p[2]..n : m[p[1]][j] # 0}
LowHull(r, n, m) == {p \in Locs(r, n) :
    p[2] <= p[1] /\ \E j \in 1..p[2] : m[p[1]][j] # 0}
Room(k, r, n, m) ==
    CASE k \in FullKinds -> Locs(r, n)
      [] k \in {"low", "upp", "diag"} -> {p \in Locs(r, n) : CanHold(k, p[1], p[2])}
      [] k = "lenv" -> LowHull(r, n, m)
      [] k = "bienv" -> RowHull(r, n, m)
      [] OTHER -> NonZero(r, n, m)

New(k, r, n, m) == Mk(k, r, n, m, Room(k, r, n, m))
ByRow(r, n, d) == Mat(r, n, LAMBDA i, j : d[(i - 1) * n + j])

InB(x, i, j) == i \in 1..x.r /\ j \in 1..x.n
MustTake(x, i, j) == InB(x, i, j) /\ (<<i, j>> \in x.st \/ x.m[i][j] # 0)
MayTake(x, i, j) == InB(x, i, j) /\ CanHold(x.k, i, j)

SetAt(m, i, j, v) == [m EXCEPT ![i][j] = v]
(* a write either takes effect or leaves everything as it was *)
Write(x, i, j, v, took) ==
    IF took THEN [x EXCEPT !.m = SetAt(x.m, i, j, v), !.st = x.st \cup {<<i, j>>}] ELSE x

Flip(x) == Mk(x.k, x.n, x.r, Transpose(x.m, x.r, x.n), {<<p[2], p[1]>> : p \in x.st})
SwapRows(x, i, j) == [x EXCEPT !.m = [x.m EXCEPT ![i] = x.m[j], ![j] = x.m[i]]]
SwapCols(x, i, j) == [x EXCEPT !.m = Mat(x.r, x.n, LAMBDA a, b :
                        x.m[a][IF b = i THEN j ELSE IF b = j THEN i ELSE b])]
SetRow(x, i, d) == [x EXCEPT !.m = [x.m EXCEPT ![i] = d]]
SetCol(x, j, d) == [x EXCEPT !.m = Mat(x.r, x.n, LAMBDA a, b : IF b = j THEN d[a] ELSE x.m[a][b])]
MapRow(x, i, v) == [x EXCEPT !.m = [x.m EXCEPT ![i] = [j \in 1..x.n |-> 2 * x.m[i][j] + v]]]
MapCol(x, j, v) == [x EXCEPT !.m = Mat(x.r, x.n, LAMBDA a, b : IF b = j THEN 2 * x.m[a][b] + v ELSE x.m[a][b])]
Plus(x, y, s) == [x EXCEPT !.m = MatAdd(x.m, y.m, s)]

Lower(m, n) == Mat(n, n, LAMBDA i, j : IF j <= i THEN m[i][j] ELSE 0)

(* conversions keep the matrix; the lower envelope keeps its lower triangle *)
ConvertOk(x, k) ==
    CASE x.k = "dict" /\ k \in {"lin", "crow"} -> TRUE
      [] x.k = "dict" /\ k = "bienv" -> x.r = x.n /\ \A i \in 1..x.r : \E j \in 1..x.n : x.m[i][j] # 0
      [] x.k = "dict" /\ k = "lenv" -> x.r = x.n /\ \A i \in 1..x.r : \E j \in 1..i : x.m[i][j] # 0
      [] x.k = "bienv" /\ k = "lenv" -> \A i \in 1..x.r :
             (\E j \in 1..i : x.m[i][j] # 0) /\ (\E j \in i..x.n : x.m[i][j] # 0)
      [] OTHER -> FALSE
Convert(x, k) == IF k = "lenv" THEN New(k, x.r, x.n, Lower(x.m, x.r)) ELSE New(k, x.r, x.n, x.m)

(* p[i+1] is the new index of old index i (both from 0) *)
Permute(x, p) == Mk(x.k, x.r, x.n,
    LET inv == [v \in 0..(x.n - 1) |-> CHOOSE i \in 1..x.n : p[i] = v]
    IN  Mat(x.r, x.n, LAMBDA i, j : x.m[inv[i - 1]][inv[j - 1]]), x.st)

Kept(mask) == SelectSeq([i \in 1..Len(mask) |-> i], LAMBDA i : mask[i])
Mask(x, mask) == LET q == Kept(mask) IN
    New("dict", Len(q), Len(q), Mat(Len(q), Len(q), LAMBDA i, j : x.m[q[i]][q[j]]))

AddLower(x, y, s) == [x EXCEPT !.m = Mat(x.r, x.n, LAMBDA i, j :
    IF j <= i THEN x.m[i][j] + s * y.m[i][j] ELSE x.m[i][j])]
Product(x, y, k) == New(k, x.r, y.n, MatMul(x.m, y.m, x.r, x.n, y.n))

Rotation(n, i, j, qt) ==
    LET cq == <<1, 0, -1, 0>>[qt + 1]
        sq == <<0, 1, 0, -1>>[qt + 1]
    IN  Mat(n, n, LAMBDA a, b :
          CASE a = i /\ b = i -> cq [] a = j /\ b = j -> cq
            [] a = i /\ b = j -> -sq [] a = j /\ b = i -> sq
            [] a = b -> 1 [] OTHER -> 0)

------------------------------------------------------------------------------
(* everything the API shows of a register agrees with its abstract value     *)
SparseRow(s, m, i, n) ==      \* s: stored <<column, value>> pairs of row i
    /\ \A t \in 1..Len(s) : s[t][1] \in 1..n /\ s[t][2] = m[i][s[t][1]]
    /\ \A t, u \in 1..Len(s) : s[t][1] = s[u][1] => t = u
    /\ \A j \in 1..n : m[i][j] # 0 => \E t \in 1..Len(s) : s[t][1] = j

SortedNZ(r, n, m) ==
    SelectSeq([t \in 1..(r * n) |-> <<((t - 1) \div n) + 1, ((t - 1) % n) + 1,
                                      m[((t - 1) \div n) + 1][((t - 1) % n) + 1]>>],
              LAMBDA x : x[3] # 0)
Symmetric2(x) == x.r = x.n /\ Symmetric(x.m)
Shows(o, x) ==
    /\ "panic" \notin DOMAIN o
    /\ o.r = x.r /\ o.c = x.n
    /\ o.idx = x.m /\ o.get = x.m /\ o.row = x.m
    /\ o.col = Transpose(x.m, x.r, x.n)
    /\ o.flat = Flat(x.m)
    /\ o.diag = [i \in 1..Min2(x.r, x.n) |-> x.m[i][i]]
    /\ o.ind = [t \in 1..(x.r * x.n) |-> <<((t - 1) \div x.n) + 1, ((t - 1) % x.n) + 1>>]
    /\ o.nz = SortedNZ(x.r, x.n, x.m)
    /\ (o.frob2 # -1 => o.frob2 = SumS([t \in 1..(x.r * x.n) |-> o.flat[t] * o.flat[t]]))
    /\ o.oob = TRUE
    /\ "sparse" \in DOMAIN o =>
         \A i \in 1..x.r : SparseRow(o.sparse[i], x.m, i, x.n)
    /\ "nodiag" \in DOMAIN o =>          \* row envelope: contiguous, ends on the diagonal
         \A i \in 1..x.r :
            LET s == o.sparse[i] IN
            /\ Len(s) >= 1 /\ Len(s) = o.env[i]
            /\ \A t \in 1..Len(s) : s[t][1] = i - Len(s) + t
            /\ o.nodiag[i] = SubSeq(s, 1, Len(s) - 1)
    /\ "count" \in DOMAIN o => o.count = SumS(o.env)
    /\ "edges" \in DOMAIN o =>
         /\ \A p \in NonZero(x.r, x.n, x.m) : \E t \in 1..Len(o.edges) : o.edges[t] = p
         /\ \A t \in 1..Len(o.edges) : o.edges[t][1] \in 1..x.r /\ o.edges[t][2] \in 1..x.n
         (* the half edge list lists one direction of each stored pair at most once *)
         /\ \A t, u \in 1..Len(o.half) : o.half[t] = o.half[u] => t = u
         /\ Symmetric2(x) => \A p \in NonZero(x.r, x.n, x.m) :
              \E t \in 1..Len(o.half) : o.half[t] \in {p, <<p[2], p[1]>>}

ShapeOK(x) == Len(x.m) = x.r /\ \A i \in 1..x.r : Len(x.m[i]) = x.n
StructOK(x) ==
    /\ x.k \in Kinds \cup {"none"} /\ ShapeOK(x)
    /\ x.st \subseteq Locs(x.r, x.n)
    /\ \A p \in Locs(x.r, x.n) : ~CanHold(x.k, p[1], p[2]) => x.m[p[1]][p[2]] = 0 /\ p \notin x.st
=============================================================================
