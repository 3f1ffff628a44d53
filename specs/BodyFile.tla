------------------------------ MODULE BodyFile ------------------------------
(* A boundary file: items in any order, each a line or a polygon, and the body   *)
(* they describe.  Lines and tokens as in MeshFile; a part also has v, the       *)
(* number in logged units of length, a token k, the constraint it names or "",   *)
(* and al, whether it can be a label.                                            *)
EXTENDS Boundary, TLC, Materials
LOCAL INSTANCE SequencesExt

(* at: "item", "first" (no corner read yet), "corners", "bad" *)
Start == [at |-> "item", polys |-> <<>>, labels |-> <<>>, atts |-> <<>>, cond |-> <<"none", <<0, 0>>>>, mat |-> "none"]
Bad(st) == [st EXCEPT !.at = "bad"]
IsDec(tok) == Len(tok.p) = 1 /\ Len(tok.p[1].d) = 2
DecOf(tok) == tok.p[1].d
WholeOf(tok) == IF DecOf(tok)[2] = 0 THEN DecOf(tok)[1] ELSE BADNUM
LenOf(tok) == tok.p[1].v
Conditions == [planestress |-> "stress", planestrain |-> "strain"]
Corner(st, t) ==
    IF Len(t) \in {2, 3} /\ IsDec(t[1]) /\ IsDec(t[2]) /\ (Len(t) = 3 => t[3].al)
    THEN LET n == Len(st.polys)   v == SumF(LAMBDA i : Len(st.polys[i]), 1, n) + 1 IN
         [st EXCEPT !.at = "corners", !.polys[n] = Append(@, <<LenOf(t[1]), LenOf(t[2])>>),
                    !.labels = IF Len(t) = 3 THEN Append(@, <<t[3].s, v>>) ELSE @]
    ELSE Bad(st)
ItemLine(st, t) ==
    LET k == Len(t) IN
    IF k = 0 THEN Bad(st)
    ELSE CASE t[1].s = "polygon" -> IF k = 1 THEN [st EXCEPT !.at = "first", !.polys = Append(@, <<>>)] ELSE Bad(st)
           [] t[1].s = "condition" -> IF k = 2 /\ t[2].s = "axisymmetric" THEN [st EXCEPT !.cond = <<"axi", <<0, 0>>>>]
                                      ELSE IF k = 3 /\ t[2].s \in DOMAIN Conditions /\ IsDec(t[3])
                                      THEN [st EXCEPT !.cond = <<Conditions[t[2].s], DecOf(t[3])>>] ELSE Bad(st)
           [] t[1].s = "material" -> IF k = 2 /\ t[2].s \in Materials THEN [st EXCEPT !.mat = t[2].s] ELSE Bad(st)
           [] t[1].s = "distributed_force" ->
                  IF k = 5 /\ t[2].al /\ t[3].al /\ IsDec(t[4]) /\ IsDec(t[5])
                  THEN [st EXCEPT !.atts = Append(@, <<"force", t[2].s, t[3].s, <<WholeOf(t[4]), WholeOf(t[5])>>>>)] ELSE Bad(st)
           [] t[1].s = "distributed_constraint" ->
                  IF k = 4 /\ t[2].al /\ t[3].al /\ t[4].k # ""
                  THEN [st EXCEPT !.atts = Append(@, <<"con", t[2].s, t[3].s, t[4].k>>)] ELSE Bad(st)
           [] OTHER -> Bad(st)
ReadLine(st, ln) ==
    LET t == ln.t IN
    CASE st.at = "item" -> ItemLine(st, t)
      [] st.at = "first" -> Corner(st, t)
      [] st.at = "corners" -> IF Len(t) = 1 /\ t[1].s = "end" THEN [st EXCEPT !.at = "item"] ELSE Corner(st, t)
      [] OTHER -> st
ReadAll(lines) == FoldLeft(ReadLine, Start, lines)

(* ---- the body ---- *)
(* the corner a label names: the last one that bears it; 0: none *)
Named(st, s) == LET hits == {i \in 1..Len(st.labels) : st.labels[i][1] = s} IN
                IF hits = {} THEN 0 ELSE st.labels[CHOOSE i \in hits : \A j \in hits : j <= i][2]
AddAtt(st, t, x) == LET v == Named(st, x[2])   w == Named(st, x[3]) IN
                    IF x[1] = "force" THEN AddWallForce(t, v, w, x[4]) ELSE AddWallKind(t, v, w, x[4])
Body(st) == LET walls == FoldLeft(AddPoly, Empty, st.polys) IN FoldLeft(LAMBDA t, x : AddAtt(st, t, x), walls, st.atts)
RECURSIVE Touch(_, _, _)
Touch(ps, k, t) == IF k > Len(ps) THEN FALSE ELSE IF Refused(t, ps[k]) THEN TRUE ELSE Touch(ps, k + 1, AddPoly(t, ps[k]))
Undefined(st) == \E i \in 1..Len(st.atts) : Named(st, st.atts[i][2]) = 0 \/ Named(st, st.atts[i][3]) = 0
(* what is not spoken of: attributes for two corners that are no wall, curves of one or two corners or with repeated ones *)
Aside(st) == \/ \E i \in 1..Len(st.polys) : Len(st.polys[i]) < 3 \/ Cardinality(ToSet(st.polys[i])) < Len(st.polys[i])
             \/ LET walls == FoldLeft(AddPoly, Empty, st.polys) IN
                \E i \in 1..Len(st.atts) : LET v == Named(st, st.atts[i][2])   w == Named(st, st.atts[i][3]) IN
                    v # 0 /\ w # 0 /\ \A j \in 1..Len(walls.segs) : ~Is2(walls.segs[j], v, w)
(* numbers off the grid, or too large for it *)
Off(st) == \/ \E i \in 1..Len(st.polys) : \E j \in 1..Len(st.polys[i]) : \E k \in 1..2 : Abs(st.polys[i][j][k]) > 16000
           \/ \E i \in 1..Len(st.atts) : st.atts[i][1] = "force" /\ \E k \in 1..2 : Abs(st.atts[i][4][k]) > 300000000
Verdict(lines) ==
    LET st == ReadAll(lines) IN
    IF Len(lines) = 0 \/ (Len(lines) = 1 /\ Len(lines[1].t) = 0) THEN "aside"
    ELSE IF st.at # "item" THEN "refused"
    ELSE IF \E i \in 1..Len(st.polys) : Len(st.polys[i]) < 3 THEN "aside"
    ELSE IF Off(st) \/ Len(st.polys) = 0 THEN "aside"
    ELSE IF Undefined(st) THEN "refused"
    ELSE IF Touch(st.polys, 1, Empty) THEN (IF Aside(st) THEN "aside" ELSE "refused")
    ELSE IF Aside(st) THEN "aside" ELSE "ok"
=============================================================================
