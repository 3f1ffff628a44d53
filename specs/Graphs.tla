------------------------------- MODULE Graphs -------------------------------
(* Undirected graphs on 0..n-1 and what the queries and the ordering mean.     *)
EXTENDS Num, FiniteSetsExt, TLC
LOCAL INSTANCE SequencesExt

V(g) == 0..(g.n - 1)
(* edges are sets of two vertices; loops and repetitions in the input say nothing *)
FromEdges(n, es) == [n |-> n, e |-> {{es[t][1], es[t][2]} : t \in {x \in 1..Len(es) : es[x][1] # es[x][2]}}]
FromLists(ls) == [n |-> Len(ls), e |-> UNION {{{i - 1, ls[i][t]} : t \in 1..Len(ls[i])} : i \in 1..Len(ls)}]
Adj(g, v) == {w \in V(g) : {v, w} \in g.e}
AdjIn(g, v, mask) == {w \in Adj(g, v) : mask[w + 1]}
(* a listing of a set: every element once *)
Lists(s, set) == Len(s) = Cardinality(set) /\ {s[t] : t \in 1..Len(s)} = set

(* vertices at distance t from v, by levels *)
RECURSIVE Levels(_, _, _)
Levels(g, seen, last) ==
    LET nx == TLCEval((UNION {Adj(g, v) : v \in last}) \ seen)
    IN  IF nx = {} THEN <<last>> ELSE <<last>> \o Levels(g, seen \cup nx, nx)
LevelsFrom(g, v) == TLCEval(Levels(g, {v}, {v}))
Ecc(g, v) == Len(LevelsFrom(g, v)) - 1
Component(g, v) == LET lv == LevelsFrom(g, v) IN TLCEval(UNION {lv[t] : t \in 1..Len(lv)})
(* a farthest vertex, of least degree among the farthest *)
IsFar(g, v, w, d) ==
    LET lv == LevelsFrom(g, v)
        far == lv[Len(lv)]
    IN  d = Len(lv) - 1 /\ w \in far /\ \A x \in far : Cardinality(Adj(g, w)) <= Cardinality(Adj(g, x))
IsPeripheral(g, x) ==
    /\ x \in Component(g, 0)
    /\ Ecc(g, x) >= Ecc(g, 0)
    /\ \E y \in Component(g, 0) : x \in LevelsFrom(g, y)[Len(LevelsFrom(g, y))]

(* o: the vertices in the order of their numbering.  Breadth first: within a component every vertex but   *)
(* the first has an earlier neighbour, and the earliest neighbours appear in the order of their children. *)
At(o, v) == CHOOSE i \in 1..Len(o) : o[i] = v
IsBFS(g, o) ==
    LET pos == TLCEval([v \in V(g) |-> At(o, v)])
        parent == TLCEval([i \in 1..Len(o) |-> LET a == {pos[w] : w \in Adj(g, o[i])} IN IF a = {} THEN 0 ELSE Min(a)])
        start(i) == parent[i] = 0 \/ parent[i] > i
    IN  /\ \A i \in 1..Len(o) : (i > 1 /\ ~start(i) /\ ~start(i - 1)) => parent[i - 1] <= parent[i]
        \* a new component starts only when the one before is complete
        /\ \A i \in 1..Len(o) : start(i) => \A j \in 1..(i - 1) : Adj(g, o[j]) \subseteq {o[t] : t \in 1..(i - 1)}
IsOrdering(g, o) == Len(o) = g.n /\ {o[i] : i \in 1..Len(o)} = V(g) /\ IsBFS(g, o)
Consecutive(g, o) ==
    LET first == TLCEval([i \in 1..Len(o) |-> Min(Component(g, o[i]))])      \* names the component
    IN  \A i, j \in 1..Len(o) : (i < j /\ first[i] = first[j]) => \A t \in i..j : first[t] = first[i]
=============================================================================
