----------------------------- MODULE MCMatStore -----------------------------
(* Exhaustive exploration of MatStore over small square matrices: every       *)
(* pattern, every conversion, every write.  The algebra that the rest of the  *)
(* library relies on is checked in every state, and every maximal history is  *)
(* printed as a scenario for the real library.                                *)
EXTENDS MatStore, Json
CONSTANTS N, Vals, Emit
VARIABLES regs, h, phase
vars == <<regs, h, phase>>

Dense == [1..N -> [1..N -> Vals]]
Perms == {p \in [1..N -> 0..(N - 1)] : \A i, j \in 1..N : p[i] = p[j] => i = j}
Inverse(p) == [v \in 1..N |-> (CHOOSE i \in 1..N : p[i] = v - 1) - 1]

Init == regs = <<Nil, Nil>> /\ h = <<>> /\ phase = 0
Log(op) == h' = Append(h, op)

NewDict == phase = 0 /\ phase' = 1 /\ \E m \in Dense :
    /\ regs' = [regs EXCEPT ![1] = New("dict", N, N, m)]
    /\ Log([op |-> "new", d |-> 1, via |-> "flat", k |-> "dict", r |-> N, c |-> N, data |-> Flat(m)])
Conv == phase = 1 /\ phase' = 2 /\ \E k \in {"lin", "crow", "bienv", "lenv"} :
    /\ ConvertOk(regs[1], k)
    /\ regs' = [regs EXCEPT ![2] = Convert(regs[1], k)]
    /\ Log([op |-> "convert", d |-> 2, a |-> 1, k |-> k])
(* a write at a location the layout must accept, or one it cannot hold *)
Put == phase = 2 /\ phase' = 3 /\ \E i, j \in 1..N :
    LET x == regs[2] IN
    /\ MustTake(x, i, j) \/ ~MayTake(x, i, j)
    /\ regs' = [regs EXCEPT ![2] = Write(x, i, j, 7, MustTake(x, i, j))]
    /\ Log([op |-> "put", d |-> 2, i |-> i, j |-> j, x |-> 7])
Half == phase = 2 /\ phase' = 3 /\ regs[2].k = "bienv" /\ ConvertOk(regs[2], "lenv")
    /\ regs' = [regs EXCEPT ![1] = Convert(regs[2], "lenv")]
    /\ Log([op |-> "convert", d |-> 1, a |-> 2, k |-> "lenv"])
Accum == phase = 3 /\ phase' = 4 /\ regs[1].k = "lenv" /\ regs[2].k = "bienv"
    /\ regs' = [regs EXCEPT ![1] = AddLower(regs[1], regs[2], 2)]
    /\ Log([op |-> "addbienv", d |-> 1, b |-> 2, x |-> 2])
Times == phase = 2 /\ phase' = 3 /\ regs[2].k \in {"crow", "lin"}
    /\ regs' = [regs EXCEPT ![1] = Product(regs[2], regs[1], "lin")]
    /\ Log([op |-> "mul", d |-> 1, a |-> 2, b |-> 1, k |-> "lin"])
Next == NewDict \/ Conv \/ Put \/ Half \/ Accum \/ Times
Spec == Init /\ [][Next]_vars

TypeOK == StructOK(regs[1]) /\ StructOK(regs[2])
Laws ==
    /\ phase >= 1 =>
         LET x == regs[1] IN
         /\ Flip(Flip(x)) = x
         /\ SwapRows(SwapRows(x, 1, N), 1, N) = x
         /\ \A p \in Perms : Permute(Permute(x, p), Inverse(p)).m = x.m
         /\ Product(x, New("lin", N, N, IdMat(N)), "lin").m = x.m
         /\ MatMul(Transpose(x.m, N, N), x.m, N, N, N) =
              Transpose(MatMul(Transpose(x.m, N, N), x.m, N, N, N), N, N)
         /\ Mask(x, [i \in 1..N |-> TRUE]).m = x.m
    /\ (phase = 2 /\ regs[2].k \in {"lin", "crow", "bienv"}) => regs[2].m = regs[1].m
    /\ (phase = 2 /\ regs[2].k = "lenv") => regs[2].m = Lower(regs[1].m, N)
    /\ (phase = 4) => regs[1].m = Mat(N, N, LAMBDA i, j : 3 * Lower(regs[2].m, N)[i][j])
    (* a refused write changes nothing *)
    /\ (phase = 3 /\ h[3].op = "put" /\ ~CanHold(regs[2].k, h[3].i, h[3].j)) =>
         regs[2].m[h[3].i][h[3].j] = 0

(* a maximal history: print it for the replay against the real library *)
Final == phase >= 3 \/ (phase = 1 /\ ~\E k \in {"lin", "crow", "bienv", "lenv"} : ConvertOk(regs[1], k))
Scenario == (Emit /\ Final) => PrintT("SCN " \o ToJson(h))
=============================================================================
