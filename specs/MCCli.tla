------------------------------- MODULE MCCli -------------------------------
(* All calls with right options, or (Slips) all with one wrong one.             *)
EXTENDS Cli, Json
CONSTANTS Emit, Subs, Slips
VARIABLES call
Needed(sub) == CASE sub = "mesh" -> {"size"} [] sub = "modal" -> {"num"} [] OTHER -> {}
Choices(sub, k) == Given(sub)[k] \cup (IF k \in Needed(sub) THEN {} ELSE {""})
LinearCalls == [c : Choices("linear", "c"), n : Choices("linear", "n"), s : Choices("linear", "s"), m : Choices("linear", "m"),
                x : Choices("linear", "x"), i : Choices("linear", "i"), o : Choices("linear", "o")]
ModalCalls == [c : Choices("modal", "c"), m : Choices("modal", "m"), x : Choices("modal", "x"), i : Choices("modal", "i"), num : Choices("modal", "num")]
MeshCalls == [a : Choices("mesh", "a"), i : Choices("mesh", "i"), I : Choices("mesh", "I"), M : Choices("mesh", "M"), size : Choices("mesh", "size")]
Calls(sub) == CASE sub = "linear" -> LinearCalls [] sub = "modal" -> ModalCalls [] sub = "mesh" -> MeshCalls
Spare(sub, o) == \A k \in DOMAIN o : o[k] = "" \/ k \in Needed(sub) \cup {"i"}
OneWrong(sub) == UNION {UNION {{[o EXCEPT ![k] = v] : o \in {p \in Calls(sub) : Spare(sub, p)}} : v \in Wrongs(sub)[k]} : k \in DOMAIN Wrongs(sub)}
Init == \E sub \in Subs : \E o \in IF Slips THEN OneWrong(sub) ELSE Calls(sub) : call = [sub |-> sub, o |-> o]
Next == UNCHANGED call
Spec == Init /\ [][Next]_call
Right == ~Wrong(call.sub, call.o)
Kinds == Right <=> ~Slips
(* an option changes what it names, and nothing else *)
Changes(sub, k) == CASE k \in {"c", "n", "m", "x"} -> {"picture"} [] k = "i" -> {"size"} [] k \in {"o", "I", "M"} -> {"files"}
                     [] k = "s" -> {"solver"} [] k = "num" -> {"files"} [] k = "a" -> {"algo"} [] k = "size" -> {"h"}
Independent == Right => \A k \in DOMAIN call.o : \A v \in Choices(call.sub, k) :
    LET one == Does(call.sub, call.o)   two == Does(call.sub, [call.o EXCEPT ![k] = v]) IN
    {f \in DOMAIN one : one[f] # two[f]} \subseteq Changes(call.sub, k)
(* different values mean different things, except the default spelled out *)
Distinct == Right => \A k \in DOMAIN call.o : \A v \in Given(call.sub)[k] \ {call.o[k]} :
    call.o[k] # "" => Does(call.sub, call.o) # Does(call.sub, [call.o EXCEPT ![k] = v])
Scenario == Emit => PrintT("SCN " \o ToJson([sub |-> call.sub, o |-> call.o]))
=============================================================================
