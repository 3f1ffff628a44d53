------------------------------ MODULE MeshFile ------------------------------
(* A saved model as text: what each line of a mesh file means, line by line,    *)
(* and when a file is refused.                                                  *)
(* A line is [h |-> it begins with a hash, t |-> its tokens, separated by single *)
(* blanks]; a token is [s |-> its text, p |-> the parts between slashes, a |->   *)
(* <<>> or the angle it names]; a part is [u |-> the natural number it is, or    *)
(* -1, d |-> the decimal number it is as <<whole, millionths>>, or <<>>].        *)
EXTENDS Num, TLC, Materials
LOCAL INSTANCE SequencesExt
C == INSTANCE Constraints

(* ---- decimal numbers <<w, f>>: w + f / 1000000, 0 <= f < 1000000 ---- *)
Million == 1000000
NumPlus(x, y) == LET f == x[2] + y[2] IN IF f >= Million THEN <<x[1] + y[1] + 1, f - Million>> ELSE <<x[1] + y[1], f>>
NumNear(x, y, tol) == LET w == x[1] - y[1] IN w >= -1000 /\ w <= 1000 /\ Abs((w * Million) + (x[2] - y[2])) <= tol
Whole(n) == <<n, 0>>
P2(x, y) == <<x, y>>
Zero2 == <<Whole(0), Whole(0)>>
Plus2(a, b) == <<NumPlus(a[1], b[1]), NumPlus(a[2], b[2])>>
Near2(a, b, tol) == NumNear(a[1], b[1], tol) /\ NumNear(a[2], b[2], tol)

(* ---- models: what is prescribed is a list of additions, and additions at one place act together ---- *)
(* cons: per node; forces: <<node, vector>>; dist: <<node, node, vector>>; nodes are numbered from 0 *)
NoModel == [mat |-> "", cond |-> <<"", Whole(0)>>, nodes |-> <<>>, els |-> <<>>, cons |-> <<>>, forces |-> <<>>, dist |-> <<>>]
ForceAt(m, n) == FoldLeft(LAMBDA s, x : IF x[1] = n THEN Plus2(s, x[2]) ELSE s, Zero2, m.forces)
DistAt(m, e) == FoldLeft(LAMBDA s, x : IF {x[1], x[2]} = e THEN Plus2(s, x[3]) ELSE s, Zero2, m.dist)
DistOf(m) == {{m.dist[i][1], m.dist[i][2]} : i \in 1..Len(m.dist)}
Turned(t) == IF t[1] <= t[2] /\ t[1] <= t[3] THEN t ELSE IF t[2] <= t[1] /\ t[2] <= t[3] THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>
Times(els, t) == Cardinality({i \in 1..Len(els) : Turned(els[i]) = t})
SameEls(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in 1..Len(a) : a[i] = b[i] \/ Times(a, Turned(a[i])) = Times(b, Turned(a[i]))
SameCon(a, b) == a.dirs = b.dirs /\ Len(a.ang) = Len(b.ang) /\ \A i \in 1..Len(a.ang) : Abs(a.ang[i] - b.ang[i]) <= 1
(* the same model up to nt in a position, ft in a force, tt in the thickness (millionths) *)
Alike(a, b, nt, ft, tt) ==
    /\ a.mat = b.mat /\ a.cond[1] = b.cond[1] /\ NumNear(a.cond[2], b.cond[2], tt)
    /\ Len(a.nodes) = Len(b.nodes) /\ \A i \in 1..Len(a.nodes) : Near2(a.nodes[i], b.nodes[i], nt)
    /\ SameEls(a.els, b.els)
    /\ Len(a.cons) = Len(b.cons) /\ \A i \in 1..Len(a.cons) : SameCon(a.cons[i], b.cons[i])
    /\ \A n \in {a.forces[i][1] : i \in 1..Len(a.forces)} \cup {b.forces[i][1] : i \in 1..Len(b.forces)} : Near2(ForceAt(a, n), ForceAt(b, n), ft)
    /\ \A e \in DistOf(a) \cup DistOf(b) : Near2(DistAt(a, e), DistAt(b, e), ft)
Same(a, b) == Alike(a, b, 2, 2, 2)
(* a file keeps 6 decimals of a position, 3 of a force, 5 of the thickness *)
Printed(a, b) == Alike(a, b, 1, 502, 6)

(* ---- reading, line by line ---- *)
(* at: where the reader is; sec: the section; left: items still to come; idx: items read; m: the model so far *)
Sections == <<"Nodes", "Elements", "Constraints", "Forces", "DistForces">>
Start == [at |-> "open", sec |-> 0, left |-> 0, idx |-> 0, m |-> NoModel]
Bad(st) == [st EXCEPT !.at = "bad"]
Title(st) == IF st.sec = 0 THEN "Header" ELSE Sections[st.sec]
Ignored(ln) == ln.h \/ Len(ln.t) = 0
Is1(ln, s) == Len(ln.t) = 1 /\ ln.t[1].s = s
IsNat(tok) == Len(tok.p) = 1 /\ tok.p[1].u >= 0
NatOf(tok) == tok.p[1].u
Dec(tok) == Len(tok.p) = 1 /\ Len(tok.p[1].d) = 2
DecOf(tok) == tok.p[1].d
Vec2(tok) == Len(tok.p) = 2 /\ \A i \in 1..2 : Len(tok.p[i].d) = 2
VecOf(tok) == <<tok.p[1].d, tok.p[2].d>>
Tri(tok) == Len(tok.p) = 3 /\ \A i \in 1..3 : tok.p[i].u >= 0
TriOf(tok) == <<tok.p[1].u, tok.p[2].u, tok.p[3].u>>
Kind(tok) == tok.s \in {"x", "y", "xy"} \/ Len(tok.a) = 1
ConOf(tok) == IF Len(tok.a) = 1 THEN C!Given("angle", tok.a[1]) ELSE C!Given(tok.s, 0)
Conditions == [planestress |-> "stress", planestrain |-> "strain"]
Count(st, ln) == IF Len(ln.t) = 2 /\ ln.t[1].s = "count" /\ IsNat(ln.t[2])
                 THEN [st EXCEPT !.at = IF NatOf(ln.t[2]) = 0 THEN "close" ELSE "items", !.left = NatOf(ln.t[2]), !.idx = 0]
                 ELSE Bad(st)
Took(st, m) == [st EXCEPT !.m = m, !.left = @ - 1, !.idx = @ + 1, !.at = IF st.left = 1 THEN "close" ELSE "items"]
AddCon(m, n, con) == [m EXCEPT !.cons = [@ EXCEPT ![n + 1] = C!Merge(@, con)]]
Item(st, ln) ==
    LET t == ln.t   k == Len(t)   m == st.m   nn == Len(m.nodes)
        here(tok) == IsNat(tok) /\ NatOf(tok) < nn IN
    CASE st.sec = 1 -> IF k = 2 /\ IsNat(t[1]) /\ NatOf(t[1]) = st.idx /\ Vec2(t[2])
                       THEN Took(st, [m EXCEPT !.nodes = Append(@, VecOf(t[2])), !.cons = Append(@, C!FreeC)]) ELSE Bad(st)
      [] st.sec = 2 -> IF k = 2 /\ IsNat(t[1]) /\ NatOf(t[1]) = st.idx /\ Tri(t[2]) /\ (\A i \in 1..3 : TriOf(t[2])[i] < nn)
                       THEN Took(st, [m EXCEPT !.els = Append(@, TriOf(t[2]))]) ELSE Bad(st)
      [] st.sec = 3 -> IF k = 2 /\ here(t[1]) /\ Kind(t[2])
                       THEN Took(st, AddCon(m, NatOf(t[1]), ConOf(t[2]))) ELSE Bad(st)
      [] st.sec = 4 -> IF k = 2 /\ here(t[1]) /\ Vec2(t[2])
                       THEN Took(st, [m EXCEPT !.forces = Append(@, <<NatOf(t[1]), VecOf(t[2])>>)]) ELSE Bad(st)
      [] st.sec = 5 -> IF k = 3 /\ here(t[1]) /\ here(t[2]) /\ Vec2(t[3])
                       THEN Took(st, [m EXCEPT !.dist = Append(@, <<NatOf(t[1]), NatOf(t[2]), VecOf(t[3])>>)]) ELSE Bad(st)
HeaderLine(st, ln) ==
    LET t == ln.t   k == Len(t) IN
    CASE st.at = "version" -> IF k = 2 /\ t[1].s = "version" /\ IsNat(t[2]) /\ NatOf(t[2]) = 1 THEN [st EXCEPT !.at = "material"] ELSE Bad(st)
      [] st.at = "material" -> IF k = 2 /\ t[1].s = "material" /\ t[2].s \in Materials
                               THEN [st EXCEPT !.at = "condition", !.m.mat = t[2].s] ELSE Bad(st)
      [] st.at = "condition" -> IF k = 2 /\ t[1].s = "condition" /\ t[2].s = "axisymmetric"
                                THEN [st EXCEPT !.at = "close", !.m.cond = <<"axi", Whole(0)>>]
                                ELSE IF k = 3 /\ t[1].s = "condition" /\ t[2].s \in DOMAIN Conditions /\ Dec(t[3])
                                THEN [st EXCEPT !.at = "close", !.m.cond = <<Conditions[t[2].s], DecOf(t[3])>>]
                                ELSE Bad(st)
ReadLine(st, ln) ==
    IF Ignored(ln) THEN st
    ELSE CASE st.at = "open" -> IF Is1(ln, "$" \o Title(st)) THEN [st EXCEPT !.at = IF st.sec = 0 THEN "version" ELSE "count"] ELSE Bad(st)
           [] st.at \in {"version", "material", "condition"} -> HeaderLine(st, ln)
           [] st.at = "count" -> Count(st, ln)
           [] st.at = "items" -> Item(st, ln)
           [] st.at = "close" -> IF Is1(ln, "$End" \o Title(st))
                                 THEN IF st.sec = Len(Sections) THEN [st EXCEPT !.at = "done"]
                                      ELSE [st EXCEPT !.at = "open", !.sec = @ + 1]
                                 ELSE Bad(st)
           [] OTHER -> Bad(st)                   \* nothing may follow the last section
ReadAll(lines) == FoldLeft(ReadLine, Start, lines)
Readable(lines) == ReadAll(lines).at = "done"
Meaning(lines) == ReadAll(lines).m

(* ---- writing ---- *)
Part(n) == [u |-> n, d |-> Whole(n)]
Tok(s) == [s |-> s, p |-> << [u |-> -1, d |-> <<>>] >>, a |-> <<>>]
NTok(n) == [s |-> ToString(n), p |-> <<Part(n)>>, a |-> <<>>]
RECURSIVE Slashed(_)
Slashed(xs) == IF Len(xs) = 1 THEN ToString(xs[1]) ELSE ToString(xs[1]) \o "/" \o Slashed(Tail(xs))
LTok(xs) == [s |-> Slashed(xs), p |-> [i \in 1..Len(xs) |-> Part(xs[i])], a |-> <<>>]
ATok(n) == [s |-> "angle:" \o ToString(n), p |-> <<>>, a |-> <<n * Million>>]
Line(t) == [h |-> FALSE, t |-> t]
Sec(name, items) == << Line(<<Tok("$" \o name)>>), Line(<<Tok("count"), NTok(Len(items))>>) >> \o items \o << Line(<<Tok("$End" \o name)>>) >>
=============================================================================
