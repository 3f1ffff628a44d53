----------------------------- MODULE MCMatArith -----------------------------
(* The table of operations: every way to prepare two operands (each storage   *)
(* scheme, plain, transposed in place or converted) against every operation   *)
(* the API defines on them, in every small shape.  Algebraic laws are checked *)
(* in every state; each history is printed for the replay in the library.     *)
EXTENDS MatStore, Json
CONSTANTS Emit
VARIABLES regs, h, phase
vars == <<regs, h, phase>>

Shapes == {<<1, 3>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>}
(* two different patterns of values, with holes, unsymmetric *)
Val(p, i, j) == CASE p = 1 -> i * 3 - j * 2
                  [] p = 2 -> IF (i + 2 * j) % 3 = 0 THEN 0 ELSE (j * 2 - i * 5)
                  [] OTHER -> IF i = j THEN 4 + i ELSE IF i = j + 1 THEN -2 ELSE 0
Dense(p, r, n) == Mat(r, n, LAMBDA i, j : Val(p, i, j))
Ways == {"lin", "linT", "dict", "dictC", "dictB", "dictE", "crow", "const", "low", "upp", "diag"}

(* the operations that bring a matrix of pattern p about in register d *)
NewOp(d, k, r, n, m) == [op |-> "new", d |-> d, via |-> "flat", k |-> k, r |-> r, c |-> n, data |-> Flat(m)]
ConvOp(d, a, k) == [op |-> "convert", d |-> d, a |-> a, k |-> k]
PutOp(d, i, j, x) == [op |-> "put", d |-> d, i |-> i, j |-> j, x |-> x]
Tri(w, p, n) == Mat(n, n, LAMBDA i, j :
    IF i = j THEN 1 + p ELSE IF (w = "low" /\ i = j + 1) \/ (w = "upp" /\ j = i + 1) THEN Val(p, i, j) ELSE 0)
Prep(d, w, p, r, n) ==
    LET m == Dense(p, r, n) IN
    CASE w \in {"lin", "dict", "crow", "const"} -> <<New(w, r, n, m), <<NewOp(d, w, r, n, m)>>>>
      [] w = "linT" -> <<Flip(New("lin", n, r, Transpose(m, r, n))),
                         <<NewOp(d, "lin", n, r, Transpose(m, r, n)), [op |-> "transpose", d |-> d]>>>>
      [] w = "dictC" -> <<Convert(New("dict", r, n, m), "crow"), <<NewOp(d, "dict", r, n, m), ConvOp(d, d, "crow")>>>>
      [] w = "dictB" -> <<Convert(New("dict", r, n, m), "bienv"), <<NewOp(d, "dict", r, n, m), ConvOp(d, d, "bienv")>>>>
      [] w = "dictE" -> <<Convert(New("dict", r, n, m), "lenv"), <<NewOp(d, "dict", r, n, m), ConvOp(d, d, "lenv")>>>>
      [] w = "diag" -> <<New("diag", r, r, Mat(r, r, LAMBDA i, j : IF i = j THEN p + i ELSE 0)),
                         <<[op |-> "new", d |-> d, via |-> "diagvec", k |-> "diag", r |-> r, c |-> r,
                            data |-> [i \in 1..r |-> p + i]]>>>>
      [] OTHER ->
           LET t == Tri(w, p, r)
               q == SelectSeq(SortedNZ(r, r, t), LAMBDA x : TRUE)
           IN  <<New(w, r, r, t),
                 <<[op |-> "new", d |-> d, via |-> "zeros", k |-> w, r |-> r, c |-> r]>> \o
                 [k \in 1..Len(q) |-> PutOp(d, q[k][1], q[k][2], q[k][3])]>>
PrepOk(w, p, r, n) ==
    CASE w \in {"low", "upp", "diag"} -> r = n
      [] w \in {"dictB", "dictE"} -> r = n /\ ConvertOk(New("dict", r, n, Dense(p, r, n)), IF w = "dictB" THEN "bienv" ELSE "lenv")
      [] OTHER -> TRUE

Init == regs = <<Nil, Nil, Nil>> /\ h = <<>> /\ phase = 0
First == phase = 0 /\ phase' = 1 /\ \E s \in Shapes, w \in Ways, p \in 1..3 :
    /\ (PrepOk(w, p, s[1], s[2])) = TRUE
    /\ LET x == Prep(1, w, p, s[1], s[2]) IN
         /\ regs' = [regs EXCEPT ![1] = x[1]]
         /\ h' = x[2]
Second2 == phase = 1 /\ phase' = 2 /\ \E s \in Shapes, w \in Ways, p \in 2..3 :
    /\ (PrepOk(w, p, s[1], s[2])) = TRUE
    /\ (s = <<regs[1].r, regs[1].n>> \/ s[1] = regs[1].n) = TRUE
    /\ LET x == Prep(2, w, p, s[1], s[2]) IN
         /\ regs' = [regs EXCEPT ![2] = x[1]]
         /\ h' = h \o x[2]

Do(d, x, op) == regs' = [regs EXCEPT ![d] = x] /\ h' = Append(h, op)
A == regs[1]
B == regs[2]
SameShape == A.r = B.r /\ A.n = B.n
Both == \/ \E o \in {"linadd", "linsub", "linaddassign"} :
             /\ A.k = "lin" /\ B.k = "lin" /\ SameShape
             /\ Do(3, New("lin", A.r, A.n, MatAdd(A.m, B.m, IF o = "linsub" THEN -1 ELSE 1)),
                   [op |-> o, d |-> 3, a |-> 1, b |-> 2])
        \/ \E o \in {"addass", "subass"} :
             /\ A.k = B.k /\ A.k \in FullKinds /\ SameShape
             /\ A.k = "const" => A.r * A.n >= 4
             /\ Do(1, Plus(A, B, IF o = "subass" THEN -1 ELSE 1), [op |-> o, d |-> 1, b |-> 2])
        \/ /\ A.k = B.k /\ SameShape /\ (A.k = "const" => A.r * A.n >= 4)
           /\ Do(1, A, [op |-> "eq", d |-> 1, a |-> 1, b |-> 2])
        \/ \E k \in {"lin", "dict", "crow"} :
             /\ A.n = B.r
             /\ Do(3, Product(A, B, k), [op |-> "mul", d |-> 3, a |-> 1, b |-> 2, k |-> k])
        \/ /\ A.n = B.r /\ A.k = "dict" /\ B.k = "dict"
           /\ Do(3, Product(A, B, "dict"), [op |-> "muldict", d |-> 3, a |-> 1, b |-> 2])
        \/ /\ A.n = B.r
           /\ Do(1, A, [op |-> "dot", d |-> 1, a |-> 1, b |-> 2, i |-> A.r, j |-> 1])
        \/ /\ A.k = "lenv" /\ B.k = "bienv" /\ SameShape
           /\ \A i \in 1..A.r, j \in 1..A.r : (j <= i /\ B.m[i][j] # 0) => \E t \in 1..j : <<i, t>> \in A.st
           /\ Do(1, AddLower(A, B, 3), [op |-> "addbienv", d |-> 1, b |-> 2, x |-> 3])
Alone == \/ A.k \in FullKinds /\ A.r > 1 /\ Do(1, SwapRows(A, 1, A.r), [op |-> "swaprows", d |-> 1, i |-> 1, j |-> A.r])
         \/ A.k \in FullKinds /\ Do(1, SwapCols(A, 1, A.n), [op |-> "swapcols", d |-> 1, i |-> 1, j |-> A.n])
         \/ A.k \in FullKinds /\ Do(1, SetRow(A, A.r, [j \in 1..A.n |-> 10 + j]),
                [op |-> "setrow", d |-> 1, i |-> A.r, data |-> [j \in 1..A.n |-> 10 + j]])
         \/ A.k \in FullKinds /\ Do(1, SetCol(A, A.n, [j \in 1..A.r |-> 10 + j]),
                [op |-> "setcol", d |-> 1, i |-> A.n, data |-> [j \in 1..A.r |-> 10 + j]])
         \/ A.k \in FullKinds /\ Do(1, MapRow(A, 1, 5), [op |-> "mutrow", d |-> 1, i |-> 1, x |-> 5])
         \/ A.k \in FullKinds /\ Do(1, MapCol(A, A.n, 5), [op |-> "mutcol", d |-> 1, i |-> A.n, x |-> 5])
         \/ A.k = "lin" /\ Do(1, [A EXCEPT !.m = [i \in 1..A.r |-> [j \in 1..A.n |-> A.m[i][j] + 2]]],
                [op |-> "addscalar", d |-> 1, x |-> 2])
         \/ A.k = "lin" /\ Do(1, [A EXCEPT !.m = [i \in 1..A.r |-> [j \in 1..A.n |-> A.m[i][j] * (-3)]]],
                [op |-> "mulscalar", d |-> 1, x |-> -3])
         \/ A.k = "bienv" /\ Do(1, A, [op |-> "mulvec", d |-> 1, a |-> 1, data |-> [i \in 1..A.r |-> 2 * i - 3]])
         \/ A.k = "dict" /\ A.r = A.n /\ Do(1, Mask(A, [i \in 1..A.r |-> i # 2]),
                [op |-> "mask", d |-> 1, a |-> 1, mask |-> [i \in 1..A.r |-> i # 2]])
(* what was written through one layout has to be read back through the other *)
Turn == /\ phase = 3 /\ phase' = 4
        /\ \E d \in {1, 3} : regs[d].k = "lin" /\ Do(d, Flip(regs[d]), [op |-> "transpose", d |-> d])
Next == \/ First \/ Second2
        \/ (phase = 1 /\ phase' = 3 /\ Alone)
        \/ (phase = 2 /\ phase' = 3 /\ Both)
        \/ Turn
Spec == Init /\ [][Next]_vars

TypeOK == \A d \in 1..3 : StructOK(regs[d])
Laws == phase = 2 =>
    /\ (SameShape => /\ Plus(Plus(A, B, 1), B, -1).m = A.m
                     /\ MatAdd(A.m, B.m, 1) = MatAdd(B.m, A.m, 1))
    /\ (A.n = B.r => Transpose(MatMul(A.m, B.m, A.r, A.n, B.n), A.r, B.n)
                       = MatMul(Transpose(B.m, B.r, B.n), Transpose(A.m, A.r, A.n), B.n, B.r, A.r))
Final == phase = 4 \/ (phase = 3 /\ ~\E d \in {1, 3} : regs[d].k = "lin")
Scenario == (Emit /\ Final) => PrintT("SCN " \o ToJson(h))
=============================================================================
