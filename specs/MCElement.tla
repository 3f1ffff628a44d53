----------------------------- MODULE MCElement -----------------------------
(* Every triangle on a small grid, several materials: the laws of the element *)
(* matrices.                                                                    *)
EXTENDS Elements, Json, TLC
CONSTANTS G, Emit
VARIABLES tri, mat, k
vars == <<tri, mat, k>>
Pts == (0..G) \X (0..G)
Mats == {[c |-> "stress", t |-> 1, e |-> 60, p |-> 1, q |-> 4, rho |-> 24],
         [c |-> "strain", t |-> 2, e |-> 60, p |-> 1, q |-> 4, rho |-> 24],
         [c |-> "stress", t |-> 1, e |-> 6, p |-> 0, q |-> 1, rho |-> 48],
         [c |-> "strain", t |-> 1, e |-> 6, p |-> -1, q |-> 2, rho |-> 24],
         [c |-> "axi", t |-> 1, e |-> 60, p |-> 1, q |-> 4, rho |-> 24]}
Init == /\ tri \in [1..3 -> Pts] /\ mat \in Mats
        /\ Proper(tri)
        /\ k = PlaneKMat(tri, Lam(mat))
        /\ mat.c = "axi" => \A i \in 1..3 : tri[i][1] > 0
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Laws ==
    LET lam == Lam(mat)
        apply(u) == [i \in 1..6 |-> Dot(k[i], u)]
        field(f(_, _), g(_, _)) == [i \in 1..6 |-> IF LDim(i) = 0 THEN f(tri[LNode(i)][1], tri[LNode(i)][2])
                                                  ELSE g(tri[LNode(i)][1], tri[LNode(i)][2])]
        zero == [i \in 1..6 |-> 0]
        energy(u) == Dot(u, apply(u))
    IN  /\ Symmetric(k)
        (* translations and the rotation: no force *)
        /\ apply(field(LAMBDA x, y : 1, LAMBDA x, y : 0)) = zero
        /\ apply(field(LAMBDA x, y : 0, LAMBDA x, y : 1)) = zero
        /\ apply(field(LAMBDA x, y : -y, LAMBDA x, y : x)) = zero
        (* a linear field stores (area) eps' C eps: times 2|A2| this is A2^2 eps' C eps *)
        /\ \A ex \in {-1, 0, 2}, ey \in {0, 1}, gm \in {0, 3} :
             energy(field(LAMBDA x, y : (ex * x) + (gm * y), LAMBDA x, y : ey * y))
               = Sq(A2(tri)) * ((lam.a * (Sq(ex) + Sq(ey))) + (2 * lam.b * ex * ey) + (lam.g * Sq(gm)))
        /\ \A u \in {field(LAMBDA x, y : x, LAMBDA x, y : 0), field(LAMBDA x, y : 0, LAMBDA x, y : y),
                     field(LAMBDA x, y : y, LAMBDA x, y : 0), field(LAMBDA x, y : x, LAMBDA x, y : y)} : energy(u) > 0
(* listing the nodes in another order permutes the matrix *)
AnyListing ==
    LET rot == <<tri[2], tri[3], tri[1]>>   flip == <<tri[2], tri[1], tri[3]>>
        at(p, i) == (2 * (p[LNode(i)] - 1)) + LDim(i) + 1
    IN  /\ PlaneKMat(rot, Lam(mat)) = Mat(6, 6, LAMBDA i, j : k[at(<<2, 3, 1>>, i)][at(<<2, 3, 1>>, j)])
        /\ PlaneKMat(flip, Lam(mat)) = Mat(6, 6, LAMBDA i, j : k[at(<<2, 1, 3>>, i)][at(<<2, 1, 3>>, j)])
        /\ A2(rot) = A2(tri) /\ A2(flip) = -A2(tri)
Masses == /\ SumF(LAMBDA i : SumF(LAMBDA j : PlaneM((2 * i) - 1, (2 * j) - 1), 1, 3), 1, 3) = 12
          /\ \A i, j \in 1..6 : PlaneM(i, j) = PlaneM(j, i)
(* the axisymmetric body of a uniform radial stretch u = r: forces are the exact integrals *)
AxiLaws == mat.c = "axi" =>
    LET lam == Lam(mat)
        up == [i \in 1..6 |-> IF LDim(i) = 1 THEN 1 ELSE 0]
    IN  \E ax \in {Mat(6, 6, LAMBDA i, j : AxiK(tri, lam, i, j))} :
          /\ Symmetric(ax)
          /\ \A i \in 1..6 : Dot(ax[i], up) = 0
Scenario == Emit => PrintT("SCN " \o ToJson([t |-> tri, m |-> mat]))
=============================================================================
