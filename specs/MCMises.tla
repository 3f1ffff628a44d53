------------------------------ MODULE MCMises ------------------------------
(* Stress states: the von Mises value does not depend on the axes, vanishes    *)
(* exactly for the states it ignores, and is homogeneous.                       *)
EXTENDS Elements, Json, TLC
CONSTANTS Emit
VARIABLES kind, s
vars == <<kind, s>>
V == {-2, 0, 1, 3}
W == {-1, 0, 2}
Init == \/ kind = "bar" /\ s \in [1..1 -> V]
        \/ kind = "plane" /\ s \in [1..3 -> V]
        \/ kind = "axi" /\ s \in [1..4 -> V]
        \/ kind = "solid" /\ s \in [1..6 -> W]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
(* axes turned by the angle with cosine 3/5 and sine 4/5: components times 25 *)
Turned(a, b, t) == << (9 * a) + (16 * b) + (24 * t), (16 * a) + (9 * b) - (24 * t), (12 * (b - a)) - (7 * t) >>
Rotation ==
    CASE kind = "plane" -> Mises2("plane", Turned(s[1], s[2], s[3])) = 625 * Mises2("plane", s)
      [] kind = "axi" -> LET p == Turned(s[1], s[2], s[3]) IN Mises2("axi", p \o <<25 * s[4]>>) = 625 * Mises2("axi", s)
      [] kind = "solid" ->       \* about the third axis: shear 23 and 31 turn like a vector
           LET p == Turned(s[1], s[2], s[4]) IN
           Mises2("solid", <<p[1], p[2], 25 * s[3], p[3], 5 * ((3 * s[5]) - (4 * s[6])), 5 * ((3 * s[6]) + (4 * s[5]))>>)
             = 625 * Mises2("solid", s)
      [] OTHER -> TRUE
Ignored == Mises2(kind, s) = 0 <=>
    CASE kind = "bar" -> s[1] = 0
      [] kind = "plane" -> s = <<0, 0, 0>>
      [] kind = "axi" -> s[1] = s[2] /\ s[2] = s[4] /\ s[3] = 0
      [] kind = "solid" -> s[1] = s[2] /\ s[2] = s[3] /\ s[4] = 0 /\ s[5] = 0 /\ s[6] = 0
Positive == Mises2(kind, s) >= 0
Homogeneous == Mises2(kind, [i \in 1..Len(s) |-> -3 * s[i]]) = 9 * Mises2(kind, s)
(* a plane state is the solid one without its third direction *)
Plane == kind = "plane" => Mises2("plane", s) = Mises2("solid", <<s[1], s[2], 0, s[3], 0, 0>>)
Axi == kind = "axi" => Mises2("axi", s) = Mises2("solid", <<s[1], s[2], s[4], s[3], 0, 0>>)
Tensor == kind \in {"bar", "plane", "solid"} => Symmetric(Cauchy(kind, s))
Scenario == Emit => PrintT("SCN " \o ToJson([kind |-> kind, s |-> s]))
=============================================================================
