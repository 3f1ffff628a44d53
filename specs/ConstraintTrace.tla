-------------------------- MODULE ConstraintTrace --------------------------
EXTENDS Constraints, TraceBase
VARIABLES con, tr
vars == <<con, tr, c, l>>
Keep == UNCHANGED <<con, tr>>

(* ---- merging ---- *)
ENodes == /\ Is("nodes") /\ E.res = "ok"
          /\ con' = con \o [i \in 1..E.n |-> FreeC] /\ UNCHANGED tr
EAdd == /\ Is("add") /\ E.res = "ok" /\ E.n < Len(con)
        /\ con' = [con EXCEPT ![E.n + 1] = Merge(@, Given(E.k, E.a))] /\ UNCHANGED tr
KindOf(con1) == CASE con1.dirs = {0} -> "x" [] con1.dirs = {1} -> "y" [] con1.dirs = {0, 1} -> "xy"
                  [] OTHER -> IF Len(con1.ang) = 0 THEN "free" ELSE "angle"
ERead == /\ Is("read") /\ Keep
         /\ (/\ Len(E.cons) = Len(con)
             /\ \A i \in 1..Len(con) :
                  /\ E.cons[i].n = i - 1
                  /\ E.cons[i].k = KindOf(con[i])
                  /\ E.cons[i].k = "angle" => E.cons[i].a = con[i].ang[1]) = TRUE
(* plain constraints, and which coordinate directions each has removed *)
EPlain == /\ Is("plain") /\ Keep
          /\ (LET g == Given(E.k, 0) IN
              /\ E.plain = (g.dirs # {})
              /\ E.struck = [d \in 1..2 |-> (d - 1) \in g.dirs]) = TRUE

(* ---- constrained coordinates; values scaled by 10^4 ---- *)
ECons == /\ Is("cons")
         /\ (\A i \in 1..Len(E.cons) : TripleOK(E.cons[i].t)) = TRUE
         /\ tr' = E.cons /\ UNCHANGED con
Kept == KeptDofs(tr)
HH(i) == H(tr[Node(i)])
EBarK == /\ Is("barmat") /\ Keep
         /\ (/\ E.res = "ok" /\ Len(E.out) = Len(Kept)
             /\ \A a, b \in 1..Len(Kept) :
                  /\ Len(E.out[a]) = Len(Kept)
                  /\ IF IsFine(tr) THEN Near(E.out[a][b], BarEntryFine(tr, E.k, Kept[a], Kept[b]), 6)
                     ELSE Near(E.out[a][b], RDiv(10000 * BarEntry(tr, E.k, Kept[a], Kept[b]), HH(Kept[a]) * HH(Kept[b])), 2)) = TRUE
EBarR == /\ Is("barvec") /\ Keep
         /\ (/\ E.res = "ok" /\ Len(E.out) = Len(Kept)
             /\ \A a \in 1..Len(Kept) : Near(E.out[a], IF IsFine(tr) THEN BarLoadFine(tr, E.x, Kept[a]) ELSE RDiv(10000 * BarLoad(tr, E.x, Kept[a]), HH(Kept[a])), 2)) = TRUE
(* fixed directions come back exactly zero, and the rest is T x *)
EUnbar == /\ Is("unbar") /\ Keep
          /\ (/\ E.res = "ok" /\ Len(E.out) = 2 * Len(tr)
              /\ \A i \in 1..(2 * Len(tr)) :
                   /\ Near(E.out[i], IF IsFine(tr) THEN UnbarFine(tr, E.x, i) ELSE RDiv(10000 * Unbar(tr, E.x, i), HH(i)), 2)
                   /\ (tr[Node(i)].k # "angle" /\ ~Keeps(tr[Node(i)], Dim(i))) => E.zero[i]) = TRUE
Step == ENodes \/ EAdd \/ ERead \/ EPlain \/ ECons \/ EBarK \/ EBarR \/ EUnbar
Init == TraceInit /\ con = <<>> /\ tr = <<>>
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ Keep)
Spec == Init /\ [][Next]_vars
Inv == \A i \in 1..Len(con) : con[i].dirs # {} => con[i].ang = <<>>
=============================================================================
