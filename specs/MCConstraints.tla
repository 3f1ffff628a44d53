--------------------------- MODULE MCConstraints ---------------------------
(* All sequences of constraints on two nodes: nothing that was fixed is lost,  *)
(* coordinate directions prevail over angles, the other node is not touched.   *)
EXTENDS Constraints, Json, TLC
CONSTANTS MaxLen, Emit
VARIABLES con, h
vars == <<con, h>>
Menu == {[k |-> k, a |-> 0] : k \in {"free", "x", "y", "xy"}} \cup {[k |-> "angle", a |-> a] : a \in {0, 64, -192}}
Init == con = <<FreeC, FreeC>> /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \E n \in 1..2, o \in Menu :
             /\ con' = [con EXCEPT ![n] = Merge(@, Given(o.k, o.a))]
             /\ h' = Append(h, [n |-> n - 1, k |-> o.k, a |-> o.a])
Spec == Init /\ [][Next]_vars
On(n) == SelectSeq(h, LAMBDA o : o.n = n - 1)
Accumulates == \A n \in 1..2 : con[n].dirs = UNION {Given(On(n)[i].k, On(n)[i].a).dirs : i \in 1..Len(On(n))}
Prevails == \A n \in 1..2 : con[n].dirs # {} => con[n].ang = <<>>
Angles(n) == SelectSeq(On(n), LAMBDA o : o.k = "angle")
MeanOfTwo == \A n \in 1..2 : con[n].dirs = {} =>
               CASE Len(Angles(n)) = 0 -> con[n] = FreeC
                 [] Len(Angles(n)) = 1 -> con[n].ang = <<Angles(n)[1].a>>
                 [] Len(Angles(n)) = 2 -> 2 * con[n].ang[1] = Angles(n)[1].a + Angles(n)[2].a
                 [] OTHER -> Len(con[n].ang) = 1
(* once fixed, fixed for good *)
Monotone == [][\A n \in 1..2 : con[n].dirs \subseteq con'[n].dirs]_vars
Scenario == (Emit /\ Len(h) = MaxLen) => PrintT("SCN " \o ToJson([n |-> 2, ops |-> h]))
=============================================================================
