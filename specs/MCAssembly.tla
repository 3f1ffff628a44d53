----------------------------- MODULE MCAssembly -----------------------------
(* Every order of contributions to a small system: what counts is their sum.   *)
EXTENDS LinSys, Json, TLC
CONSTANTS Len0, Emit
VARIABLES sys, h
vars == <<sys, h>>
Menu == {[op |-> "addk", i |-> 1, j |-> 1, v |-> 2], [op |-> "addk", i |-> 2, j |-> 2, v |-> 3],
         [op |-> "addk", i |-> 1, j |-> 2, v |-> -1], [op |-> "addk", i |-> 2, j |-> 1, v |-> -1],
         [op |-> "addr", i |-> 1, v |-> 1], [op |-> "addr", i |-> 2, v |-> -2], [op |-> "solve"]}
Do(s, o) == CASE o.op = "addk" -> AddK(s, o.i, o.j, o.v) [] o.op = "addr" -> AddR(s, o.i, o.v) [] OTHER -> s
Init == sys = Empty(2) /\ h = <<>>
Next == Len(h) < Len0 /\ \E o \in Menu : sys' = Do(sys, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
Total(kind, i, j) == SumF(LAMBDA t : IF h[t].op = kind /\ h[t].i = i /\ (kind = "addk" => h[t].j = j) THEN h[t].v ELSE 0, 1, Len(h))
IsSum == /\ \A i, j \in 1..2 : sys.k[i][j] = Total("addk", i, j)
         /\ \A i \in 1..2 : sys.r[i] = Total("addr", i, 0)
Scenario == (Emit /\ Len(h) = Len0) => PrintT("SCN " \o ToJson([n |-> 2, ops |-> h]))
=============================================================================
