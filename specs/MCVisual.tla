------------------------------ MODULE MCVisual ------------------------------
(* The drawing rules of Visual.tla keep the promises of an image: every line   *)
(* of a grid, every place of up to three nodes, every colour of the scales.    *)
EXTENDS Visual, Json, TLC
CONSTANTS L, N, D, Emit
VARIABLES kind, a, b, t, k
vars == <<kind, a, b, t, k>>
Grid(m) == {<<x, y>> : x \in 0..m, y \in 0..m}
Z == <<0, 0>>
Sizes == {16, 17, 20, 23, 32}
Init == \/ (kind = "line" /\ a \in Grid(L) /\ b \in Grid(L) /\ t = <<>> /\ k = 0)
        \/ (kind = "scale" /\ a = Z /\ b = Z /\ t = <<>> /\ k \in 0..D)
        \/ (kind = "view" /\ a = Z /\ b = Z /\ t \in {<<p, q, r>> : p \in Grid(N), q \in Grid(N), r \in Grid(N)} /\ k \in Sizes)
        \/ (kind = "view1" /\ a = Z /\ b = Z /\ t \in {<<<<x>>, <<y>>, <<z>>>> : x \in 0..5, y \in 0..5, z \in 0..5} /\ k \in Sizes)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Step1(p, q) == Abs(p[1] - q[1]) <= 1 /\ Abs(p[2] - q[2]) <= 1
LineLaws ==
    LET d == DrawnLine(a, b)   n == Len(d) IN
    /\ n = 1 + Max2(Abs(b[1] - a[1]), Abs(b[2] - a[2]))
    \* from end to end without a gap, as near as pixels can be
    /\ {d[1], d[n]} = {a, b}
    /\ \A i \in 1..(n - 1) : Step1(d[i], d[i + 1]) /\ d[i] # d[i + 1]
    /\ \A i \in 1..n : OnLine(d[i], a, b)
    /\ \A s \in LineSteps(a, b) : StepPixels(a, b, s) # {} /\ \E i \in 1..n : d[i] \in StepPixels(a, b, s)
    \* whatever pixel is chosen where there are two, no gap opens
    /\ \A s \in LineSteps(a, b) : (s + 1) \in LineSteps(a, b) =>
          \A p \in StepPixels(a, b, s), q \in StepPixels(a, b, s + 1) : Step1(p, q)
ScaleLaws ==
    LET h == HotTimes(k, D)   r == RgbTimes(k, D) IN
    /\ \A i \in 1..3 : h[i] \in 0..(255 * D) /\ r[i] \in 0..(255 * D)
    \* no jumps
    /\ k < D => \A i \in 1..3 : /\ Abs(HotTimes(k + 1, D)[i] - h[i]) <= 765
                                /\ Abs(RgbTimes(k + 1, D)[i] - r[i]) <= 1021
    /\ k < D => \A i \in 1..3 : HotTimes(k + 1, D)[i] >= h[i]
    /\ (k = 0 => h = <<0, 0, 0>>) /\ (k = D => h = <<255 * D, 255 * D, 255 * D>>)
    /\ (3 * k = D => h = <<255 * D, 0, 0>>) /\ (3 * k = 2 * D => h = <<255 * D, 255 * D, 0>>)
    /\ (4 * k = D => r[3] = 255 * D /\ r[1] = 0) /\ (2 * k = D => r[2] = 255 * D) /\ (4 * k = 3 * D => r[1] = 255 * D /\ r[3] = 0)
    /\ ColourOK([i \in 1..3 |-> h[i] \div D], "hot", k, D)
ViewLaws ==
    LET dim == Len(t[1])   p == Pixels(dim, t, k)   cs == Coords(dim, t)
        range(d) == Extent(Along(p, d))
    IN  /\ \A i \in 1..3 : \A d \in 1..2 : 20 * p[i][d] >= (2 * k) - 20 /\ 20 * p[i][d] <= (18 * k) + 20
        \* the larger range fills the view, and what is right of or above is drawn so
        /\ (Extent(Along(cs, 1)) + Extent(Along(cs, 2)) > 0) => Abs((10 * Max2(range(1), range(2))) - (8 * k)) <= 10
        /\ \A i, j \in 1..3 : /\ cs[i][1] <= cs[j][1] => p[i][1] <= p[j][1]
                              /\ cs[i][2] <= cs[j][2] => p[i][2] >= p[j][2]
        \* the same factor both ways: equal steps across and up differ by no more than rounding
        /\ \A i, j, m \in 1..3 : cs[j][1] - cs[i][1] = cs[m][2] - cs[i][2] =>
              Abs((p[j][1] - p[i][1]) + (p[m][2] - p[i][2])) <= 2
        \* the choice of unit and origin does not show
        /\ Pixels(dim, [i \in 1..3 |-> [d \in 1..dim |-> (3 * t[i][d]) - 7]], k) = p
Laws == CASE kind = "line" -> LineLaws [] kind = "scale" -> ScaleLaws [] OTHER -> ViewLaws
Out == (Emit /\ kind \in {"view", "view1"}) => PrintT("SCN " \o ToJson([t |-> t, size |-> k]))
=============================================================================
