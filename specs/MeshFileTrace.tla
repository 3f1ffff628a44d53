--------------------------- MODULE MeshFileTrace ---------------------------
(* Histories of a model that is built, saved, loaded, changed and saved again,   *)
(* and of files read as they are.                                                *)
EXTENDS MeshFile, TraceBase
LOCAL INSTANCE SequencesExt
VARIABLES m,      \* the model in memory
          txt     \* the file as it was last saved, <<>> after a change of the model
vars == <<m, txt, c, l>>
Keep == UNCHANGED <<m, txt>>

(* models as the driver logs them *)
CV(x) == IF Len(x.a) = 1 THEN C!Given("angle", x.a[1]) ELSE C!Given(x.k, 0)
OM(o) == [mat |-> o.mat, cond |-> o.cond, nodes |-> o.nodes, els |-> o.els,
          cons |-> [i \in 1..Len(o.cons) |-> CV(o.cons[i])], forces |-> o.forces, dist |-> o.dist]
(* a model has the constants of the material it names *)
MatOK(o) == o.consts = Constants(o.mat)
AddCons(t, cs) == FoldLeft(LAMBDA s, x : AddCon(s, x.n, CV(x)), t, cs)
AddLoads(t, e) == [t EXCEPT !.forces = @ \o e.forces, !.dist = @ \o e.dist]
Given(e) == AddLoads(AddCons([NoModel EXCEPT !.mat = e.mat, !.cond = e.cond, !.nodes = e.nodes, !.els = e.els,
                                             !.cons = [i \in 1..Len(e.nodes) |-> C!FreeC]], e.cons), e)

EBuild == /\ Is("build") /\ E.res = "ok"
          /\ (MatOK(E.obs) /\ Same(Given(E), OM(E.obs))) = TRUE
          /\ m' = Given(E) /\ txt' = <<>>
EMore == /\ Is("more") /\ E.res = "ok"
         /\ LET t == AddLoads(AddCons(m, E.cons), E) IN (Same(t, OM(E.obs))) = TRUE /\ m' = t /\ txt' = <<>>
(* the text means the model, and saying it twice says the same *)
Bag(lines) == [x \in ToSet(lines) |-> Cardinality({i \in 1..Len(lines) : lines[i] = x})]
ESave == /\ Is("save") /\ E.res = "ok"
         /\ (Readable(E.lines) /\ Printed(m, Meaning(E.lines))) = TRUE
         /\ (txt # <<>> => Bag(E.lines) = Bag(txt)) = TRUE
         /\ m' = Meaning(E.lines) /\ txt' = E.lines
ELoad == /\ Is("load") /\ E.res = "ok"
         /\ (MatOK(E.obs) /\ Same(m, OM(E.obs))) = TRUE
         /\ Keep
ERead == /\ Is("read")
         /\ IF Readable(E.lines) THEN /\ E.res = "ok" /\ (MatOK(E.obs) /\ Same(Meaning(E.lines), OM(E.obs))) = TRUE
                                      /\ m' = Meaning(E.lines) /\ txt' = <<>>
            ELSE E.res = "refused" /\ Keep
(* the extension alone says what a file is: names[1] reads models, names[2] boundaries *)
EExt == /\ Is("ext")
        /\ E.res = (IF E.content # "none" /\ E.ext = E.reader /\ E.content = E.reader THEN "ok" ELSE "refused")
        /\ Keep
Step == EBuild \/ EMore \/ ESave \/ ELoad \/ ERead \/ EExt
Init == TraceInit /\ m = NoModel /\ txt = <<>>
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ Keep)
Spec == Init /\ [][Next]_vars
=============================================================================
