-------------------------------- MODULE Cli --------------------------------
(* The command line: which options there are, what they name, and what a run    *)
(* with them must do.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* options of each study: what may be given; "" stands for an option left out *)
Colours == {"hot", "rgb"}
Flags == {"true", "false"}
Scales == {"1", "1000", "2.5e1", "0"}
Sizes == {"64", "97"}
Given(sub) ==
    CASE sub = "linear" -> [c |-> Colours, n |-> {"displacement", "vonmises"}, s |-> {"densegauss", "cholesky", "gaussseidel"},
                            m |-> Flags, x |-> Scales, i |-> Sizes, o |-> {"pic.png", "a.b.png"}]
      [] sub = "modal" -> [c |-> Colours, m |-> Flags, x |-> Scales, i |-> Sizes, num |-> {"0", "1", "2", "3"}]
      [] sub = "mesh" -> [a |-> {"chew", "ruppert"}, i |-> Sizes, I |-> {"pic.png"}, M |-> {"body.bmsh"}, size |-> {"1", "1.25", "2", "0.8"}]
Wrongs(sub) ==
    CASE sub = "linear" -> [c |-> {"cool", "HOT"}, n |-> {"stress", "displacements"}, s |-> {"lu", "gauss", "dense"},
                            m |-> {"yes", "True", "1"}, x |-> {"big", "1,5"}, i |-> {"big", "12.5", "-3"}, o |-> {}]
      [] sub = "modal" -> [c |-> {"cool", "HOT"}, m |-> {"yes", "1"}, x |-> {"big", "1,5"}, i |-> {"12.5", "big"}, num |-> {"two", "1.5"}]
      [] sub = "mesh" -> [a |-> {"delaunay", "Chew"}, i |-> {"12.5", "big"}, I |-> {}, M |-> {}, size |-> {"fine", "1,5"}]
Wrong(sub, o) == \E k \in DOMAIN o : o[k] # "" /\ o[k] \in Wrongs(sub)[k]
Or(v, d) == IF v = "" THEN d ELSE v

(* what the options name; the colour map left out is the one the library draws with by itself *)
Solver(o) == Or(o.s, "densegauss")
Picture(sub, o) == IF sub = "linear" THEN <<Solver(o), o.c, Or(o.n, "displacement"), Or(o.m, "true"), Or(o.x, "50.0")>>
                   ELSE <<o.c, Or(o.m, "true"), Or(o.x, "50.0")>>
Size(o) == CASE o.i = "" -> 1024 [] o.i = "64" -> 64 [] o.i = "97" -> 97
Digits2(k) == (IF k < 10 THEN "0" ELSE "") \o ToString(k)
Count(o) == CASE o.num = "0" -> 0 [] o.num = "1" -> 1 [] o.num = "2" -> 2 [] o.num = "3" -> 3
Files(sub, o) == CASE sub = "linear" -> {Or(o.o, "out.png")}
                   [] sub = "modal" -> {"out_" \o Digits2(k) \o ".png" : k \in 0..(Count(o) - 1)}
                   [] sub = "mesh" -> {Or(o.I, "out.png"), Or(o.M, "out.bmsh")}
Algo(o) == Or(o.a, "chew")
Thousandths(o) == CASE o.size = "1" -> 1000 [] o.size = "1.25" -> 1250 [] o.size = "2" -> 2000 [] o.size = "0.8" -> 800
(* everything a run does with its options *)
Does(sub, o) == CASE sub = "linear" -> [solver |-> Solver(o), picture |-> Tail(Picture(sub, o)), size |-> Size(o), files |-> Files(sub, o)]
                  [] sub = "modal" -> [picture |-> Picture(sub, o), size |-> Size(o), files |-> Files(sub, o)]
                  [] sub = "mesh" -> [algo |-> Algo(o), size |-> Size(o), files |-> Files(sub, o), h |-> Thousandths(o)]
(* calls that cannot be understood *)
Misuse == { <<"linear">>, <<"modal">>, <<"modal", "FILE">>, <<"mesh", "BODY">>, <<"mesh">>, <<"static", "FILE">>, <<"linear", "FILE", "extra">>,
            <<"linear", "FILE", "--fast">>, <<"linear", "missing.bmsh">>, <<"linear", "BODY">>, <<"modal", "missing.bmsh", "1">>,
            <<"modal", "BODY", "1">>, <<"mesh", "FILE", "-s", "1">>, <<"mesh", "missing.bbnd", "-s", "1">>, <<"linear", "SPOILED">>,
            <<"modal", "SPOILED", "1">>, <<"mesh", "SPOILEDBODY", "-s", "1">>, <<"linear", "FILE", "-c">>, <<"linear", "FILE", "-m", "chew">>,
            <<"mesh", "BODY", "-s", "1", "-c", "hot">>, <<"modal", "FILE", "1", "-s", "cholesky">>, <<"modal", "FILE", "1", "-n", "vonmises">>,
            <<"mesh", "BODY", "-s">>, <<"linear", "dir.bmsh">>, <<"linear", "noext">>, <<"mesh", "noext", "-s", "1">>, <<"mesh", "NOMATERIAL", "-s", "1">>,
            <<"mesh", "NOCONDITION", "-s", "1">>, <<"modal", "FILE", "-1">>, <<"modal", "FILE", "99">> }
=============================================================================
