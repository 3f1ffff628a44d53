------------------------------ MODULE Materials ------------------------------
(* The materials a file may name: stiffness in Pa, Poisson's number, density in  *)
(* kg/m3, each as <<m, e>>, the number m * 10^e.                                  *)
EXTENDS Integers
Materials == {"AL6061", "TEST"}
Constants(name) == CASE name = "AL6061" -> <<<<689, 8>>, <<33, -2>>, <<27, 2>>>>
                     [] name = "TEST" -> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>
                     [] OTHER -> <<>>
=============================================================================
