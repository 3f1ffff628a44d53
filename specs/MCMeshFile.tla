----------------------------- MODULE MCMeshFile -----------------------------
(* A writer, a medium that spoils at most one thing, and the reader.            *)
EXTENDS MeshFile, Json
LOCAL INSTANCE SequencesExt
CONSTANTS Big, Emit
VARIABLES file, what, st, i, orig
vars == <<file, what, st, i, orig>>

(* the models: a triangle or two, all conditions, with and without supports and loads *)
Base(b) ==
    LET tri == [NoModel EXCEPT !.nodes = <<P2(Whole(0), Whole(0)), P2(Whole(4), Whole(1)), P2(Whole(1), Whole(5))>>, !.els = <<<<0, 1, 2>>>>,
                               !.mat = "TEST", !.cond = <<"stress", Whole(1)>>]
        two == [tri EXCEPT !.nodes = Append(@, P2(Whole(6), Whole(7))), !.els = Append(@, <<1, 3, 2>>), !.mat = "AL6061"] IN
    CASE b = 1 -> tri
      [] b = 2 -> [tri EXCEPT !.cond = <<"axi", Whole(0)>>, !.forces = << <<2, P2(Whole(-3), Whole(2))>> >>]
      [] b = 3 -> [two EXCEPT !.cond = <<"strain", Whole(2)>>, !.dist = << <<1, 3, P2(Whole(5), Whole(-1))>>, <<3, 2, P2(Whole(1), Whole(1))>> >>]
      [] b = 4 -> [two EXCEPT !.forces = << <<2, P2(Whole(3), Whole(2))>>, <<3, P2(Whole(0), Whole(-7))>>, <<2, P2(Whole(1), Whole(1))>> >>]
      [] OTHER -> [two EXCEPT !.cond = <<"axi", Whole(0)>>, !.dist = << <<0, 1, P2(Whole(2), Whole(0))>> >>, !.forces = << <<0, P2(Whole(9), Whole(9))>> >>]
(* supports, in the order of the file: <<node, token>> *)
Supports(b) ==
    CASE b = 1 -> <<>>
      [] b = 2 -> << <<0, Tok("xy")>>, <<1, Tok("y")>> >>
      [] b = 3 -> << <<0, Tok("x")>>, <<1, ATok(1)>>, <<0, Tok("y")>> >>
      [] b = 4 -> << <<3, ATok(2)>>, <<0, Tok("xy")>>, <<3, Tok("x")>> >>
      [] OTHER -> << <<0, Tok("y")>>, <<1, Tok("y")>>, <<2, Tok("y")>>, <<3, Tok("y")>> >>
NB == IF Big THEN 5 ELSE 5
CondTok(cond) == IF cond[1] = "axi" THEN <<Tok("axisymmetric")>>
                 ELSE <<Tok(IF cond[1] = "stress" THEN "planestress" ELSE "planestrain"), NTok(cond[2][1])>>
VTok(v) == LTok(<<v[1][1], v[2][1]>>)
Written(b) ==
    LET m == Base(b)   sup == Supports(b) IN
    << Line(<<Tok("$Header")>>), Line(<<Tok("version"), NTok(1)>>), Line(<<Tok("material"), Tok(m.mat)>>),
       Line(<<Tok("condition")>> \o CondTok(m.cond)), Line(<<Tok("$EndHeader")>>) >>
    \o Sec("Nodes", [k \in 1..Len(m.nodes) |-> Line(<<NTok(k - 1), VTok(m.nodes[k])>>)])
    \o Sec("Elements", [k \in 1..Len(m.els) |-> Line(<<NTok(k - 1), LTok(m.els[k])>>)])
    \o Sec("Constraints", [k \in 1..Len(sup) |-> Line(<<NTok(sup[k][1]), sup[k][2]>>)])
    \o Sec("Forces", [k \in 1..Len(m.forces) |-> Line(<<NTok(m.forces[k][1]), VTok(m.forces[k][2])>>)])
    \o Sec("DistForces", [k \in 1..Len(m.dist) |-> Line(<<NTok(m.dist[k][1]), NTok(m.dist[k][2]), VTok(m.dist[k][3])>>)])
(* the model a file describes, told without the reader *)
Intended(b) == LET m == Base(b)   sup == Supports(b) IN
    [m EXCEPT !.cons = [n \in 1..Len(m.nodes) |->
        FoldLeft(LAMBDA s, x : IF x[1] = n - 1 THEN C!Merge(s, ConOf(x[2])) ELSE s, C!FreeC, sup)]]

(* ---- what may happen to line k of a file ---- *)
At(f, k, new) == SubSeq(f, 1, k - 1) \o new \o SubSeq(f, k + 1, Len(f))
Blank == [h |-> FALSE, t |-> <<>>]
Comment == [h |-> TRUE, t |-> <<Tok("#"), Tok("count"), NTok(7)>>]
Harmless == {"none", "blank", "comment"}
Hurts == {"drop", "double", "cut", "swap", "longer", "shorter", "renumber", "extra", "word", "retitle", "slash", "unslash", "outside", "unknown", "spaced"}
Toks(ln, k, tok) == [ln EXCEPT !.t = SubSeq(@, 1, k - 1) \o tok \o SubSeq(@, k + 1, Len(@))]
IsCount(ln) == Len(ln.t) = 2 /\ ln.t[1].s = "count"
(* the section line k is an item of, 0 if it is none *)
In(f, k) == LET s == ReadAll(SubSeq(f, 1, k - 1)) IN IF s.at = "items" THEN s.sec ELSE 0
(* <<>> when the change makes no sense for the line *)
Changed(f, k, w) ==
    LET ln == f[k]   t == ln.t   n == Len(t) IN
    CASE w = "blank" -> At(f, k, <<Blank, ln>>)
      [] w = "comment" -> At(f, k, <<Comment, ln>>)
      [] w = "drop" -> At(f, k, <<>>)
      [] w = "double" -> At(f, k, <<ln, ln>>)
      [] w = "cut" -> SubSeq(f, 1, k - 1)
      [] w = "swap" -> IF k = Len(f) THEN <<>> ELSE At(At(f, k, <<f[k + 1]>>), k + 1, <<ln>>)
      [] w = "longer" -> IF IsCount(ln) THEN At(f, k, <<Toks(ln, 2, <<NTok(NatOf(t[2]) + 1)>>)>>) ELSE <<>>
      [] w = "shorter" -> IF IsCount(ln) /\ NatOf(t[2]) > 0 THEN At(f, k, <<Toks(ln, 2, <<NTok(NatOf(t[2]) - 1)>>)>>) ELSE <<>>
      [] w = "renumber" -> IF In(f, k) \in {1, 2} THEN At(f, k, <<Toks(ln, 1, <<NTok(NatOf(t[1]) + 1)>>)>>) ELSE <<>>
      [] w = "extra" -> At(f, k, <<ln, Line(<<Tok("more")>>)>>)
      [] w = "word" -> At(f, k, <<[ln EXCEPT !.t = Append(@, Tok("more"))]>>)
      [] w = "retitle" -> IF n = 1 THEN At(f, k, <<Line(<<Tok("$Loads")>>)>>) ELSE <<>>
      [] w = "slash" -> IF Len(t[n].p) >= 2 THEN At(f, k, <<Toks(ln, n, <<LTok(Append([j \in 1..Len(t[n].p) |-> t[n].p[j].d[1]], 1))>>)>>) ELSE <<>>
      [] w = "unslash" -> IF Len(t[n].p) >= 2 THEN At(f, k, <<Toks(ln, n, <<LTok([j \in 1..(Len(t[n].p) - 1) |-> t[n].p[j].d[1]])>>)>>) ELSE <<>>
      [] w = "outside" -> IF In(f, k) \in 2..5
                          THEN IF In(f, k) = 2 THEN At(f, k, <<Toks(ln, 2, <<LTok(<<t[2].p[1].u, t[2].p[2].u, 4>>)>>)>>)
                               ELSE At(f, k, <<Toks(ln, 1, <<NTok(4)>>)>>)
                          ELSE <<>>
      [] w = "unknown" -> IF n >= 2 THEN At(f, k, <<Toks(ln, 2, <<Tok("other")>>)>>) ELSE <<>>
      [] w = "spaced" -> At(f, k, <<[ln EXCEPT !.t = <<Tok("")>> \o @]>>)
      [] OTHER -> f
Init == \E b \in 1..NB : \E w \in Harmless \cup Hurts : \E k \in 1..Len(Written(b)) :
          /\ LET f == Changed(Written(b), k, w) IN f # <<>> /\ file = f
          /\ (w = "none") => k = 1
          /\ what = w /\ orig = b /\ st = Start /\ i = 1
Next == /\ i <= Len(file) /\ st' = ReadLine(st, file[i]) /\ i' = i + 1 /\ UNCHANGED <<file, what, orig>>
Spec == Init /\ [][Next]_vars

AtEnd == i > Len(file)
Accepted == AtEnd /\ st.at = "done"
(* what does not matter does not matter, and no file that was spoiled is read as another model *)
ReadsBack == (AtEnd /\ what \in Harmless) => (st.at = "done" /\ Same(st.m, Intended(orig)))
NeverAnother == Accepted => Same(st.m, Intended(orig))
(* one change of a line is always noticed, except that two lines of the same section may change places *)
Noticed == (AtEnd /\ what \in Hurts \ {"swap"}) => st.at # "done"
(* the reader never looks back: once refused, always refused *)
Final == [][st.at = "bad" => st'.at = "bad"]_vars
WholeModel == Accepted => /\ Len(st.m.cons) = Len(st.m.nodes)
                          /\ \A k \in 1..Len(st.m.els) : \A j \in 1..3 : st.m.els[k][j] < Len(st.m.nodes)
Scenario == (Emit /\ i = 1) => PrintT("SCN " \o ToJson([lines |-> [k \in 1..Len(file) |-> [j \in 1..Len(file[k].t) |-> file[k].t[j].s]]]))
=============================================================================
