------------------------------- MODULE MCSearch -------------------------------
(* The search for the lowest eigenvalues, with exact counts: doubling until a     *)
(* bracket holds something new, halving until a bracket holds one value or is too  *)
(* narrow to be split, lower halves first.  Positions are cells 1..Top of a grid;  *)
(* several eigenvalues may share a cell.                                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Json, TLC
CONSTANTS Top, Count, Emit
VARIABLES eig, todo, found, mu, want, asked
vars == <<eig, todo, found, mu, want, asked>>
Ascending == {f \in [1..Count -> 2..(Top - 1)] : \A i \in 1..(Count - 1) : f[i] <= f[i + 1]}
Under(x) == Cardinality({i \in 1..Count : eig[i] < x})
Init == /\ eig \in Ascending /\ todo = <<>> /\ found = <<>> /\ mu = 1 /\ asked = <<>>
        /\ want = 0
(* the caller asks for the n lowest (or for more than before) *)
Ask == /\ todo = <<>> /\ Len(found) >= want /\ want < Count
       /\ \E n \in (want + 1)..Count : want' = n /\ asked' = Append(asked, n)
       /\ UNCHANGED <<eig, todo, found, mu>>
Double == /\ todo = <<>> /\ Len(found) < want
          /\ mu' = 2 * mu
          /\ LET u == Under(2 * mu) IN
             todo' = IF u > Len(found) THEN <<[lo |-> mu, hi |-> 2 * mu, a |-> Len(found), z |-> u]>> ELSE <<>>
          /\ UNCHANGED <<eig, found, want, asked>>
Head0 == todo[1]
Narrow(r) == r.hi - r.lo <= 1
Accept == /\ todo # <<>> /\ (Head0.z - Head0.a = 1 \/ Narrow(Head0))
          /\ found' = found \o [t \in 1..(Head0.z - Head0.a) |-> Head0]
          /\ todo' = Tail(todo) /\ UNCHANGED <<eig, mu, want, asked>>
Split == /\ todo # <<>> /\ Head0.z - Head0.a > 1 /\ ~Narrow(Head0)
         /\ LET m == (Head0.lo + Head0.hi) \div 2
                u == Under(m)
                lo == IF u > Head0.a THEN <<[lo |-> Head0.lo, hi |-> m, a |-> Head0.a, z |-> u]>> ELSE <<>>
                up == IF u < Head0.z THEN <<[lo |-> m, hi |-> Head0.hi, a |-> u, z |-> Head0.z]>> ELSE <<>>
            IN  todo' = lo \o up \o Tail(todo)
         /\ UNCHANGED <<eig, found, mu, want, asked>>
Next == Ask \/ Double \/ Accept \/ Split
Spec == Init /\ [][Next]_vars /\ WF_vars(Double \/ Accept \/ Split)

Holds(r) == {i \in 1..Count : r.lo <= eig[i] /\ eig[i] < r.hi}
RangesExact == \A t \in 1..Len(todo) : Holds(todo[t]) = (todo[t].a + 1)..todo[t].z
(* the brackets still to be looked at continue the list without a gap *)
NoGap == \A t \in 1..Len(todo) : todo[t].a = IF t = 1 THEN Len(found) ELSE todo[t - 1].z
(* what was found is the list of the lowest eigenvalues, each once, in order *)
FoundRight == \A t \in 1..Len(found) : found[t].lo <= eig[t] /\ eig[t] < found[t].hi
NothingMissed == todo = <<>> => Under(mu) = Len(found)
Answers == (todo = <<>> /\ Len(found) < want) ~> (Len(found) >= want /\ todo = <<>>)
Scenario == (Emit /\ todo = <<>> /\ want = Count /\ Len(found) >= want)
               => PrintT("SCN " \o ToJson([eig |-> eig, asked |-> asked]))
=============================================================================
