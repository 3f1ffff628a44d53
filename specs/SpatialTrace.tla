---------------------------- MODULE SpatialTrace ----------------------------
(* Recorded predicates, and histories of a register machine of points.         *)
EXTENDS Spatial, TraceBase
LOCAL INSTANCE SequencesExt
VARIABLES regs        \* the points made so far
vars == <<regs, c, l>>
Keep == UNCHANGED regs
Bool(b) == IF b THEN "true" ELSE "false"
(* num / den, times 1000 *)
RatioOK(out, num, den, by) == Fin(out) /\ Abs((out * den) - (by * num)) <= Abs(den)
EFlat == /\ Is("flat") /\ Keep
         /\ (/\ E.intri = Bool(InTriangle(E.t, E.p))
             /\ E.bary.res = "ok"
             /\ Area2(E.t) # 0 => \A i \in 1..3 : RatioOK(E.bary.v[i], Bary(E.t, E.p)[i], Area2(E.t), 1000)
             /\ (Area2(E.t) > 0 => E.incirc = Bool(Circle(E.t, E.p) > 0))
             /\ (Area2(E.t) = 0 \/ Circle(E.t, E.p) = 0 => E.incirc \in {"true", "false"})
             /\ (Circle(E.t, E.p) = 0 => E.incirc = "false")
             /\ IF Area2(E.t) = 0 THEN E.cen.res = "none"
                ELSE /\ E.cen.res = "some"
                     /\ \A d \in 1..2 : E.cen.v[d] = BADNUM \/
                          RatioOK(E.cen.v[d] - (100 * E.t[1][d]), Centre(E.t)[d], 2 * Area2(E.t), 100)) = TRUE
ESolid == /\ Is("solid") /\ Keep
          /\ (/\ E.dir = (CASE Tetra(E.t) > 0 -> "pos" [] Tetra(E.t) < 0 -> "neg" [] OTHER -> "zero")
              /\ (Tetra(E.t) > 0 => E.insph = Bool(Sphere(E.t, E.p) > 0))
              /\ (Sphere(E.t, E.p) = 0 => E.insph = "false")
              /\ E.insph # "panic") = TRUE
Push(p) == regs' = Append(regs, p)
Made(p) == E.res = "ok" /\ E.out = p /\ Push(p)
Refused == E.res = "panic" /\ Keep
ENew == /\ Is("new") /\ Made(Pt(E.v))
EAdd == /\ Is("add") /\ IF regs[E.i].n = regs[E.j].n THEN Made(PAdd(regs[E.i], regs[E.j])) ELSE Refused
ESub == /\ Is("sub") /\ IF regs[E.i].n = regs[E.j].n THEN Made(PSub(regs[E.i], regs[E.j])) ELSE Refused
EMul == /\ Is("mul") /\ Made(PMul(regs[E.i], E.by))
EMid == /\ Is("mid") /\ Made(Pt([i \in 1..Min2(regs[E.i].n, regs[E.j].n) |-> PMidTwice(regs[E.i], regs[E.j])[i] \div 2]))
(* a length, times ten *)
LengthOK(out, sq) == out >= 0 /\ Fin(out) /\ out < 40000 => (((out - 1) * (out - 1)) - 2 <= 100 * sq /\ 100 * sq <= ((out + 1) * (out + 1)) + 2)
EPair == /\ Is("pair") /\ Keep
         /\ LET a == regs[E.i]   b == regs[E.j] IN
            (   /\ E.dot.res = "ok" /\ E.dot.v = PDot(a, b)
               /\ IF a.n # b.n THEN E.dist.res = "panic" ELSE E.dist.res = "ok" /\ LengthOK(E.dist.v, PSquare(PSub(a, b)))
               /\ E.eq = (a = b)) = TRUE
EOne == /\ Is("one") /\ Keep
        /\ LET a == regs[E.i] IN
           (
              /\ E.norm.res = "ok" /\ LengthOK(E.norm.v, PSquare(a))
              /\ (PSquare(a) # 0 => /\ E.unit.res = "ok" /\ E.unit.n = a.n
                                    /\ \A i \in 1..a.n : Abs((E.unit.v[i] * E.norm.v) - (10000 * a.v[i])) <= E.norm.v + 1001)) = TRUE
EGet == /\ Is("get") /\ Keep
        /\ LET a == regs[E.i] IN
           ( IF E.at < a.n THEN E.out.res = "ok" /\ E.out.v = a.v[E.at + 1] ELSE E.out.res = "panic") = TRUE
ESet == /\ Is("set")
        /\ LET a == regs[E.i] IN
           IF E.at < a.n THEN LET b == [a EXCEPT !.v[E.at + 1] = E.v] IN E.res = "ok" /\ E.out = b /\ regs' = [regs EXCEPT ![E.i] = b]
           ELSE E.res = "panic" /\ E.out = a /\ Keep
(* whole sixteenths of which the text shows four places *)
Digits == <<"0", "0625", "1250", "1875", "2500", "3125", "3750", "4375", "5000", "5625", "6250", "6875", "7500", "8125", "8750", "9375">>
NumText(v) == LET m == Abs(v)   f == IF (m % 16) = 0 THEN "0000" ELSE Digits[(m % 16) + 1]
              IN  (IF v < 0 THEN {"-"} ELSE IF v = 0 THEN {"", "-"} ELSE {""}) \X {ToString(m \div 16) \o "." \o f}
RECURSIVE Texts(_, _)
Texts(a, i) == LET h == {x[1] \o x[2] : x \in NumText(a.v[i])} IN
               IF i = a.n THEN {x \o ")" : x \in h} ELSE {x[1] \o ", " \o x[2] : x \in h \X Texts(a, i + 1)}
EConv == /\ Is("conv") /\ Keep
         /\ LET a == regs[E.i] IN
            (
               /\ E.one = (IF a.n = 1 THEN a.v ELSE <<>>)
               /\ E.two = (IF a.n = 2 THEN a.v ELSE <<>>)
               /\ E.three = (IF a.n = 3 THEN a.v ELSE <<>>)
               /\ (a.n > 0 => E.vec.res = "ok" /\ E.vec.v = a.v)
               /\ (a.n > 0 => E.text \in {"(" \o x : x \in Texts(a, 1)})) = TRUE
EMake == /\ Is("make") /\ Keep
         /\ (/\ IF Len(E.v) \in 1..3 THEN E.try.res = "ok" /\ E.try.out = Pt(E.v) ELSE E.try.res = "err"
             /\ IF Len(E.v) <= 3 THEN E.new.res = "ok" /\ E.new.out = Pt(E.v) ELSE E.new.res = "panic") = TRUE
Step == EFlat \/ ESolid \/ ENew \/ EAdd \/ ESub \/ EMul \/ EMid \/ EPair \/ EOne \/ EGet \/ ESet \/ EConv \/ EMake
Init == TraceInit /\ regs = <<>>
Next == \/ (Step /\ Advance)
        \/ (Second /\ ~ENABLED Step /\ Reject /\ Keep)
Spec == Init /\ [][Next]_vars
Inv == \A i \in 1..Len(regs) : regs[i].n \in 0..3 /\ Len(regs[i].v) = regs[i].n
=============================================================================
