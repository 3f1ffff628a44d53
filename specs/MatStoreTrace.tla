--------------------------- MODULE MatStoreTrace ---------------------------
(* A recorded history of the real library is a behaviour of MatStore.        *)
EXTENDS MatStore, TraceBase
VARIABLE regs
vars == <<regs, c, l>>

R(i) == regs[i]
Res(x) == /\ E.ok = TRUE
          /\ Shows(E.obs, x) = TRUE     \* `= TRUE`: a value, not a sub-action to split
          /\ regs' = [regs EXCEPT ![E.d] = x]
Same(i) == /\ E.ok = TRUE
           /\ (R(i).k # "none" => Shows(E.obs, R(i))) = TRUE
           /\ UNCHANGED regs

Built ==
    CASE E.via = "flat" -> New(E.k, E.r, E.c, ByRow(E.r, E.c, E.data))
      [] E.via = "zeros" -> New(E.k, E.r, E.c, ZeroMat(E.r, E.c))
      [] E.via = "eye" -> New(E.k, E.r, E.r, IdMat(E.r))
      [] E.via = "rows" -> New(E.k, E.r, E.c, E.rows)
      [] E.via = "rowvec" -> New(E.k, 1, E.c, <<E.data>>)
      [] E.via \in {"colvec", "vec"} -> New(E.k, E.r, 1, [i \in 1..E.r |-> <<E.data[i]>>])
      [] E.via = "diagvec" -> New(E.k, E.r, E.r, Mat(E.r, E.r, LAMBDA i, j : IF i = j THEN E.data[i] ELSE 0))
      [] E.via = "env" -> Mk("lenv", E.r, E.r, ZeroMat(E.r, E.r),
                             {p \in Locs(E.r, E.r) : p[2] <= p[1] /\ p[2] > p[1] - E.env[p[1]]})
      [] E.via = "labeled" ->
            LET f == Mat(E.r, E.c, LAMBDA i, j :
                       IF \E t \in 1..Len(E.trip) : E.trip[t][1] = i /\ E.trip[t][2] = j
                       THEN E.trip[CHOOSE t \in 1..Len(E.trip) : E.trip[t][1] = i /\ E.trip[t][2] = j][3]
                       ELSE 0)
            IN Mk("crow", E.r, E.c, f, {<<E.trip[t][1], E.trip[t][2]>> : t \in 1..Len(E.trip)})
      [] E.via = "rot" -> New("lin", E.r, E.r, Rotation(E.r, E.i, E.j, E.quarter))

ENew == Is("new") /\ Res(Built)
ECopy == Is("copy") /\ E.ok = TRUE /\ (R(E.a).k # "none" => Shows(E.obs, R(E.a))) = TRUE
         /\ regs' = [regs EXCEPT ![E.d] = R(E.a)]
EWrite == /\ ~Done /\ l > 0 /\ E.op \in {"put", "setget", "setidx", "mutate"}
          /\ (E.took = TRUE => MayTake(R(E.d), E.i, E.j)) = TRUE
          /\ (MustTake(R(E.d), E.i, E.j) => E.took = TRUE) = TRUE
          /\ Res(Write(R(E.d), E.i, E.j,
                       IF E.op = "mutate" /\ E.took THEN R(E.d).m[E.i][E.j] + E.x ELSE E.x, E.took))
EFlip == Is("transpose") /\ Res(Flip(R(E.d)))
ESwapR == Is("swaprows") /\ Res(SwapRows(R(E.d), E.i, E.j))
ESwapC == Is("swapcols") /\ Res(SwapCols(R(E.d), E.i, E.j))
ESetR == Is("setrow") /\ Res(SetRow(R(E.d), E.i, E.data))
ESetC == Is("setcol") /\ Res(SetCol(R(E.d), E.i, E.data))
EMapR == Is("mutrow") /\ Res(MapRow(R(E.d), E.i, E.x))
EMapC == Is("mutcol") /\ Res(MapCol(R(E.d), E.i, E.x))
EAdd == Is("addass") /\ Res(Plus(R(E.d), R(E.b), 1))
ESub == Is("subass") /\ Res(Plus(R(E.d), R(E.b), -1))
ELinAdd == (Is("linadd") \/ Is("linaddassign")) /\ Res(New("lin", R(E.a).r, R(E.a).n, MatAdd(R(E.a).m, R(E.b).m, 1)))
ELinSub == Is("linsub") /\ Res(New("lin", R(E.a).r, R(E.a).n, MatAdd(R(E.a).m, R(E.b).m, -1)))
EAddS == Is("addscalar") /\ Res([R(E.d) EXCEPT !.m = [i \in 1..Len(@) |-> [j \in 1..Len(@[i]) |-> @[i][j] + E.x]]])
EMulS == Is("mulscalar") /\ Res([R(E.d) EXCEPT !.m = [i \in 1..Len(@) |-> [j \in 1..Len(@[i]) |-> @[i][j] * E.x]]])
(* equality: exact for the dense kinds, never true of different matrices for the others
   (the entries of a rotation are rounded) *)
Rounded == \E t \in 1..(l - 1) : Ev[t].op = "new" /\ Ev[t].via = "rot"
EEq == /\ Is("eq")
       /\ LET same == R(E.a).r = R(E.b).r /\ R(E.a).n = R(E.b).n /\ R(E.a).m = R(E.b).m
              need == (R(E.a).k \in {"lin", "const", "low", "upp", "diag"} /\ same /\ ~Rounded) => E.res = TRUE
          IN  (E.res = TRUE => same) = TRUE /\ need = TRUE
       /\ Same(E.d)
(* the same numbers row by row in the other shape are another matrix *)
EEqT == Is("eqturned") /\ (E.res = TRUE => R(E.a).r = R(E.a).n) = TRUE /\ Same(E.d)
(* what no matrix corresponds to is refused, and nothing changes *)
Nonsense(e) ==
    CASE e.op = "new" /\ e.via = "env" -> \E i \in 1..Len(e.env) : e.env[i] \notin 1..i
      [] e.op = "new" /\ e.via = "flat" ->
            \/ Len(e.data) < e.r * e.c
            \/ e.k = "lin" /\ Len(e.data) # e.r * e.c
            \/ e.k = "lenv" /\ \E i \in 1..e.r, j \in 1..e.c : j > i /\ e.data[(i - 1) * e.c + j] # 0
      [] e.op = "new" /\ e.via = "rows" -> \E i, j \in 1..Len(e.rows) : Len(e.rows[i]) # Len(e.rows[j])
      [] e.op \in {"addass", "subass"} -> <<R(e.d).r, R(e.d).n>> # <<R(e.b).r, R(e.b).n>>
      [] e.op \in {"linadd", "linsub", "linaddassign"} -> <<R(e.a).r, R(e.a).n>> # <<R(e.b).r, R(e.b).n>>
      [] e.op \in {"mul", "muldict"} -> R(e.a).n # R(e.b).r
      [] e.op = "setrow" -> Len(e.data) # R(e.d).n
      [] e.op = "setcol" -> Len(e.data) # R(e.d).r
      [] e.op = "mask" -> R(e.a).r # R(e.a).n \/ Len(e.mask) # R(e.a).r
ERefuse == Is("refuse") /\ (Nonsense(E.inner) => E.refused = TRUE) = TRUE /\ Same(E.d)
EConvert == Is("convert") /\ ConvertOk(R(E.a), E.k) = TRUE /\ Res(Convert(R(E.a), E.k))
EPermute == Is("permute") /\ IsPerm(E.p, R(E.d).n) = TRUE /\ Res(Permute(R(E.d), E.p))
EMask == Is("mask") /\ Res(Mask(R(E.a), E.mask))
EAddB == Is("addbienv") /\ Res(AddLower(R(E.d), R(E.b), E.x))
EMul == (Is("mul") \/ Is("muldict")) /\ Res(Product(R(E.a), R(E.b), IF E.op = "muldict" THEN "dict" ELSE E.k))
EMulV == Is("mulvec") /\ E.ok = TRUE /\ E.res = MatVec(R(E.a).m, E.data) /\ Same(E.d)
EDot == Is("dot") /\ E.ok = TRUE /\ E.res = Dot(R(E.a).m[E.i], ColOf(R(E.b).m, E.j)) /\ Same(E.d)
EDiag == /\ Is("diagfn") /\ E.ok = TRUE
         /\ LET v == [i \in 1..R(E.a).r |-> R(E.a).m[i][i]] IN
            /\ E.neg = Cardinality({i \in 1..Len(v) : v[i] < 0})
            /\ E.prod = ProdS(v)
            /\ E.prods = ProdS([i \in 1..Len(v) |-> 2 * v[i]])
            /\ E.sum = SumS(v) /\ E.by1 = v
            /\ \A i \in 1..Len(v) : Fin(E.sol[i]) /\ Abs(E.sol[i] * v[i] - 10000 * E.data[i]) <= Abs(v[i])
         /\ Same(E.d)
EAvg == /\ Is("avg") /\ E.ok = TRUE
        /\ Fin(E.res) /\ Abs(E.res * Len(E.data) - 1000 * SumS(E.data)) <= Len(E.data)
        /\ Same(E.d)

Step == \/ ENew \/ ECopy \/ EWrite \/ EFlip \/ ESwapR \/ ESwapC \/ ESetR \/ ESetC \/ EMapR \/ EMapC
        \/ EAdd \/ ESub \/ ELinAdd \/ ELinSub \/ EAddS \/ EMulS \/ EEq \/ EEqT \/ ERefuse \/ EConvert \/ EPermute \/ EMask
        \/ EAddB \/ EMul \/ EMulV \/ EDot \/ EDiag \/ EAvg

Init == TraceInit /\ regs = <<Nil, Nil, Nil>>
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ UNCHANGED regs)
Spec == Init /\ [][Next]_vars
Inv == \A i \in 1..3 : StructOK(regs[i])
=============================================================================
