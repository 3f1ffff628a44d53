----------------------------- MODULE MCBodyFile -----------------------------
(* The items of a small body in every order, spoiled in at most one place.      *)
EXTENDS BodyFile, Json
LOCAL INSTANCE SequencesExt
CONSTANTS Spoil, Emit
VARIABLES order, what, at
vars == <<order, what, at>>

Tok(s) == [s |-> s, p |-> << [u |-> -1, d |-> <<>>, v |-> BADNUM] >>, a |-> <<>>, k |-> IF s \in {"x", "y", "xy"} THEN s ELSE "",
           al |-> s \notin {"", "distributed_force", "distributed_constraint", "-", "a-b"}]
NTok(n) == [s |-> ToString(n), p |-> << [u |-> n, d |-> <<n, 0>>, v |-> n] >>, a |-> <<>>, k |-> "", al |-> n >= 0]
Line(t) == [h |-> FALSE, t |-> t]
Pt(x, y) == Line(<<NTok(x), NTok(y)>>)
PtL(x, y, s) == Line(<<NTok(x), NTok(y), Tok(s)>>)
One(s) == Line(<<Tok(s)>>)
(* a square with a triangular hole; c is a corner of both, and the later polygon has it *)
Items == <<
    << One("polygon"), PtL(0, 0, "a"), PtL(8, 0, "b"), PtL(8, 8, "c"), Pt(0, 8), One("end") >>,
    << One("polygon"), PtL(2, 2, "p"), PtL(2, 4, "7"), PtL(4, 4, "c"), One("end") >>,
    << Line(<<Tok("condition"), Tok("planestress"), NTok(2)>>) >>,
    << Line(<<Tok("material"), Tok("TEST")>>) >>,
    << Line(<<Tok("distributed_force"), Tok("b"), Tok("a"), NTok(5), NTok(-2)>>) >>,
    << Line(<<Tok("distributed_constraint"), Tok("p"), Tok("7"), Tok("xy")>>) >>,
    << Line(<<Tok("distributed_force"), Tok("a"), Tok("b"), NTok(1), NTok(1)>>) >>,
    << Line(<<Tok("condition"), Tok("axisymmetric")>>) >>
>>
Sets == {{1, 2, 3, 4, 5, 6}, {1, 5, 7, 8}, {1, 3, 4, 8}, {2, 6}, {1, 2, 6, 7}}
Orders == UNION {{p \in [1..Cardinality(s) -> s] : \A i, j \in 1..Cardinality(s) : i # j => p[i] # p[j]} : s \in Sets}
File == FoldLeft(LAMBDA f, i : f \o Items[i], <<>>, order)
Kinds == {"drop", "double", "cut", "blank", "word", "unknown", "comment", "relabel", "minus"}
Put(f, k, new) == SubSeq(f, 1, k - 1) \o new \o SubSeq(f, k + 1, Len(f))
Spoiled(f, k, w) ==
    LET ln == f[k]   t == ln.t   n == Len(t) IN
    CASE w = "none" -> f
      [] w = "drop" -> Put(f, k, <<>>)
      [] w = "double" -> Put(f, k, <<ln, ln>>)
      [] w = "cut" -> SubSeq(f, 1, k - 1)
      [] w = "blank" -> Put(f, k, <<ln, Line(<<>>)>>)
      [] w = "comment" -> Put(f, k, <<[h |-> TRUE, t |-> <<Tok("#"), Tok("note")>>], ln>>)
      [] w = "word" -> Put(f, k, <<[ln EXCEPT !.t = Append(@, Tok("q"))]>>)
      [] w = "unknown" -> Put(f, k, <<[ln EXCEPT !.t = <<Tok("other")>> \o Tail(@)]>>)
      [] w = "relabel" -> Put(f, k, <<[ln EXCEPT !.t[n] = Tok("z")]>>)
      [] w = "minus" -> Put(f, k, <<[ln EXCEPT !.t[n] = Tok("-")]>>)
Spoilt == Spoiled(File, at, what)
Init == /\ order \in Orders
        /\ \/ what = "none" /\ at = 1
           \/ Spoil /\ (order[1] = 1 \/ Len(order) < 5) /\ what \in Kinds /\ at \in 1..SumF(LAMBDA i : Len(Items[order[i]]), 1, Len(order))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* ---- the body without its numbering ---- *)
Seen(st) == LET t == Body(st) IN
    [walls |-> {<<t.verts[t.segs[i].a], t.verts[t.segs[i].b], t.segs[i].f, t.segs[i].k>> : i \in 1..Len(t.segs)}, mat |-> st.mat]
Sorted == SetToSortSeq({order[i] : i \in 1..Len(order)}, LAMBDA x, y : x < y)
Plain == FoldLeft(LAMBDA f, i : f \o Items[i], <<>>, Sorted)
LabelC == {1, 2} \subseteq ToSet(order)
(* the order of the items does not matter *)
AnyOrder == what = "none" => /\ Verdict(File) = "ok"
                             /\ Seen(ReadAll(File)) = Seen(ReadAll(Plain))
(* the last condition of the file is the one that counts *)
LastCond == (what = "none" /\ {3, 8} \subseteq ToSet(order)) =>
            ReadAll(File).cond[1] = (IF \E i, j \in 1..Len(order) : order[i] = 3 /\ order[j] = 8 /\ i < j THEN "axi" ELSE "stress")
(* blank lines, comments and left-over words are refused, and so are labels nobody bears *)
NotHere == what \in {"blank", "comment", "unknown", "minus"} => Verdict(Spoilt) # "ok"
(* a lost line never goes unnoticed, apart from a corner nobody names and a whole item *)
LostLine == (what = "drop" /\ Verdict(Spoilt) = "ok") => Len(File[at].t) # 1
Scenario == Emit => PrintT("SCN " \o ToJson([lines |-> [k \in 1..Len(Spoilt) |-> [j \in 1..Len(Spoilt[k].t) |-> Spoilt[k].t[j].s]]]))
=============================================================================
