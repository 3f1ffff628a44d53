----------------------------- MODULE MCFileType -----------------------------
(* What a file is called, what it holds, and who reads it.                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Emit
VARIABLES x
(* names, and the extension of each: what follows the last point of the last part, if something stands before that point *)
Names == {<<"a.bmsh", "bmsh">>, <<"a.bbnd", "bbnd">>, <<"a.b.bmsh", "bmsh">>, <<"a.bmsh.bbnd", "bbnd">>, <<"a.bbnd.bmsh", "bmsh">>,
          <<"a", "">>, <<"bmsh", "">>, <<".bmsh", "">>, <<".bbnd", "">>, <<"a.", "">>, <<"a.txt", "txt">>, <<"a.bmsh.txt", "txt">>,
          <<"a.bbndx", "bbndx">>, <<"a.bms", "bms">>, <<"d.bmsh/a", "">>, <<"d.bbnd/a", "">>, <<"d.bbnd/a.bmsh", "bmsh">>, <<"..bbnd", "bbnd">>, <<"a b.bmsh", "bmsh">>}
Init == x \in [n : Names, content : {"none", "bmsh", "bbnd"}, reader : {"bmsh", "bbnd"}]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Scenario == Emit => PrintT("SCN " \o ToJson([name |-> x.n[1], ext |-> x.n[2], content |-> x.content, reader |-> x.reader]))
=============================================================================
