--------------------------- MODULE BodyFileTrace ---------------------------
(* Boundary files, read. *)
EXTENDS BodyFile, TraceBase
LOCAL INSTANCE SequencesExt
VARIABLES last           \* the boundary that was read last
vars == <<last, c, l>>
Keep == UNCHANGED last
Ev0 == INSTANCE BoundaryEvents WITH b <- last
ERead == /\ Is("bound")
         /\ LET v == Verdict(E.lines)   st == ReadAll(E.lines) IN
            CASE v = "aside" -> Keep
              [] v = "refused" -> E.res = "refused" /\ Keep
              [] v = "ok" -> /\ E.res = "ok"
                             /\ (Ev0!Shows(E.obs, Body(st))) = TRUE
                             /\ E.cond = st.cond /\ E.mat = st.mat /\ (st.mat # "none" => E.consts = Constants(st.mat))
                             /\ last' = Body(st)
(* the extension alone says what a file is *)
EExt == /\ Is("ext")
        /\ E.res = (IF E.content = E.reader /\ E.ext = E.reader THEN "ok" ELSE "refused")
        /\ Keep
Step == ERead \/ EExt
Init == TraceInit /\ last = Empty
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ Keep)
Spec == Init /\ [][Next]_vars
=============================================================================
