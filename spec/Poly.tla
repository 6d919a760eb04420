-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Exact plane geometry over integer coordinates.  A point is <<x, y>>, a     *)
(* directed edge <<p, q, colour>>.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Cross(p, q, r) == (q[1]-p[1])*(r[2]-p[2]) - (r[1]-p[1])*(q[2]-p[2])
Dot(p, q, r)   == (q[1]-p[1])*(r[1]-p[1]) + (q[2]-p[2])*(r[2]-p[2])
Dist2(p, q)    == (q[1]-p[1])*(q[1]-p[1]) + (q[2]-p[2])*(q[2]-p[2])
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0

\* r strictly between p and q on the line through them / including the ends
InSeg(p, q, r)   == Cross(p, q, r) = 0 /\ Dot(r, p, q) < 0
InOnSeg(p, q, r) == Cross(p, q, r) = 0 /\ Dot(r, p, q) <= 0 /\ (p = q => r = p)

\* the two open segments meet in exactly one point
Crossing(a, b, c, d) == Sgn(Cross(a, b, c)) * Sgn(Cross(a, b, d)) < 0
                     /\ Sgn(Cross(c, d, a)) * Sgn(Cross(c, d, b)) < 0
\* the segments cross, or an end point of one lies strictly inside the other
Touching(a, b, c, d) == \/ Crossing(a, b, c, d)
                        \/ InSeg(a, b, c) \/ InSeg(a, b, d)
                        \/ InSeg(c, d, a) \/ InSeg(c, d, b)

RECURSIVE SumOver(_, _)
SumOver(f(_), S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f(e) + SumOver(f, S \ {e})

\* ------------------------------------------------------------ closed curves as sets of directed edges
ShoeTerm(e) == e[1][1]*e[2][2] - e[2][1]*e[1][2]
Area2(E) == SumOver(ShoeTerm, E)
Starts(E) == {e[1] : e \in E}
Ends(E)   == {e[2] : e \in E}
\* every point is left as often as it is entered, and following edges from one reaches all
NextOf(E, e) == {f \in E : f[1] = e[2]}
RECURSIVE Reach(_, _)
Reach(E, R) == LET N == R \cup UNION {NextOf(E, e) : e \in R} IN IF N = R THEN R ELSE Reach(E, N)
Closed(E) == /\ E # {} /\ Starts(E) = Ends(E)
             /\ Cardinality(Starts(E)) = Cardinality(E)
             /\ Reach(E, {CHOOSE e \in E : TRUE}) = E
Adjacent(e, f) == e[2] = f[1] \/ f[2] = e[1]
OnCurve(E, p) == \E e \in E : InOnSeg(e[1], e[2], p)
\* does the horizontal ray from p to the right cross e
RayHit(p, e) == LET a == e[1] b == e[2] IN
                /\ (a[2] > p[2]) # (b[2] > p[2])
                /\ IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0
Inside(E, p) == Cardinality({e \in E : RayHit(p, e)}) % 2 = 1
RevCurve(E) == {<<e[2], e[1], e[3]>> : e \in E}
=============================================================================
