----------------------------- MODULE MCSupport -----------------------------
(* Every choice of supports on a square of two triangles: the reduced          *)
(* stiffness is regular exactly when no rigid motion is left, so that a        *)
(* supported structure has one solution.                                        *)
EXTENDS Structure, Json, TLC
CONSTANTS Emit
VARIABLES kinds, t, s, k
vars == <<kinds, t, s, k>>
Nodes == << <<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>> >>
Els == << <<0, 1, 2>>, <<3, 2, 0>> >>
M == [c |-> "stress", t |-> 1, e |-> 6, p |-> 0, q |-> 1, rho |-> 24]
Kinds == {"free", "x", "y", "xy", "angle"}
Cons == [i \in 1..4 |-> [k |-> kinds[i], t |-> t]]
(* the stiffness, column by column: forces of unit displacements, doubled to stay whole *)
Whole == LET z == Make(Nodes, Els, M, Cons) IN
    [i \in 1..8 |-> [j \in 1..8 |->
       SumF(LAMBDA a : SumF(LAMBDA b : IF z.at[i][a][1] = z.at[j][b][1]
                                       THEN z.plane[z.at[i][a][1]][z.at[i][a][2]][z.at[j][b][2]] ELSE 0,
                            1, Len(z.at[j])), 1, Len(z.at[i]))]]
P == 32749
RECURSIVE PowMod(_, _)
PowMod(b, n) == IF n = 0 THEN 1 ELSE LET r == PowMod((b * b) % P, n \div 2) IN IF n % 2 = 1 THEN (r * b) % P ELSE r
(* does Gaussian elimination modulo P find a pivot in every column? *)
RECURSIVE Regular(_)
Regular(m) ==
    IF Len(m) = 0 THEN TRUE
    ELSE LET p == {i \in 1..Len(m) : m[i][1] % P # 0} IN
         IF p = {} THEN FALSE
         ELSE LET r == CHOOSE i \in p : TRUE
                  inv == PowMod(m[r][1] % P, P - 2)
                  others == SelectSeq([i \in 1..Len(m) |-> i], LAMBDA i : i # r)
              IN  Regular(TLCEval([i \in 1..(Len(m) - 1) |->
                     LET w == m[others[i]]   q == ((w[1] % P) * inv) % P
                     IN  [j \in 1..(Len(m) - 1) |-> (w[j + 1] - (q * (m[r][j + 1] % P))) % P]]))
Init == /\ kinds \in [1..4 -> Kinds] /\ t \in {<<3, 4, 5>>, <<-4, 3, 5>>}
        /\ s = Make(Nodes, Els, M, Cons) /\ k = Whole
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Reduced == LET kept == KeptDofs(s.cons) IN
    [a \in 1..Len(kept) |-> [b \in 1..Len(kept) |-> BarEntry(s.cons, k, kept[a], kept[b]) % P]]
Regularity == Supported(s) <=> Regular(Reduced)
Symmetry == Symmetric(k)
Scenario == (Emit /\ Supported(s)) => PrintT("SCN " \o ToJson([cons |-> kinds, t |-> t]))
=============================================================================
