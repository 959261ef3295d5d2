--------------------------------- MODULE LenDefs ---------------------------------
\* Lengths beyond TLC's integers, the passes of a call, and what the ideal machine shows of them.
EXTENDS Integers, Sequences
\* m * 2^w + o, or the plain number o if w = 0
LM(m, w, o) == [m |-> m, w |-> w, o |-> o]
L(w, o) == LM(1, w, o)
Zero == L(0, 0)
Huge(l) == l.w >= 31
Plain(l) == IF l.w = 0 THEN l.o ELSE l.m * (2 ^ l.w) + l.o     \* for lengths that are not huge

Passes(op) == CASE op = "E" -> << "enc", "maca", "macx" >>
                [] op = "D" -> << "maca", "macx" >>           \* an input that is not authentic
                [] op = "F" -> << "dec" >>                     \* an input taken for authentic without its MAC passes
                [] op = "H" -> << "hash" >>
Over(p, pr) == IF p = "maca" THEN pr.a ELSE pr.x
IdealBack(pr) == IF \E q \in 1..Len(Passes(pr.op)) : Huge(Over(Passes(pr.op)[q], pr)) THEN "never" ELSE "yes"
\* does the first pass, which writes the output, run over a huge input?
WritesLong(pr) == pr.op \in {"E", "F"} /\ Huge(pr.x)
================================================================================
