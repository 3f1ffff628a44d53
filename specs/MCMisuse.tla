----------------------------- MODULE MCMisuse -----------------------------
(* Calls that cannot be understood.                                            *)
EXTENDS Cli, Json
CONSTANT Emit
VARIABLES args
Init == args \in Misuse
Next == UNCHANGED args
Spec == Init /\ [][Next]_args
(* none of them is a call of a study with a file of its kind and nothing else *)
Understood == {<<"linear", "FILE">>} \cup {<<"modal", "FILE", n>> : n \in Given("modal").num} \cup {<<"mesh", "BODY", "-s", z>> : z \in Given("mesh").size}
NotUnderstood == args \notin Understood
Scenario == Emit => PrintT("SCN " \o ToJson([sub |-> "misuse", args |-> args]))
=============================================================================
