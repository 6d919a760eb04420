-------------------------------- MODULE Geo --------------------------------
(***************************************************************************)
(* Geometric predicates (src/utils/Geometry.h, src/algorithm/FacetGeometry.h) *)
(* defined exactly over integer coordinates.  An expected answer is a         *)
(* sequence of bits, 2 meaning that nothing is claimed (degenerate input).    *)
(* The model enumerates point tuples and checks the laws that the definitions *)
(* themselves must obey; GeoTrace.tla compares the library with them.         *)
(***************************************************************************)
EXTENDS Poly, TLC

B(c) == IF c THEN 1 ELSE 0
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
InBox(p, q, r)  == Min(p[1], q[1]) <= r[1] /\ r[1] <= Max(p[1], q[1]) /\ Min(p[2], q[2]) <= r[2] /\ r[2] <= Max(p[2], q[2])
InBoxS(p, q, r) == Min(p[1], q[1]) < r[1] /\ r[1] < Max(p[1], q[1]) /\ Min(p[2], q[2]) < r[2] /\ r[2] < Max(p[2], q[2])
\* ---------------------------------------------------------------- three points
Bits3(p, q, r) ==
  LET c == Cross(p, q, r) IN
  << B(c > 0), B(c >= 0), B(c > 0), B(c < 0), B(c = 0), B(InSeg(p, q, r)),
     IF p = q THEN 2 ELSE B(InOnSeg(p, q, r)), B(InBox(p, q, r)), B(InBoxS(p, q, r)), B(p = q), B(p # q) >>
\* angle at p between q and r in steps of 45 degrees: 0, 2, 4, 6, 8 exactly 0, 45, 90, 135, 180, odd numbers in between
AngleClass(p, q, r) ==
  LET d == Dot(p, q, r) c == Abs(Cross(p, q, r)) IN
  IF d > 0 THEN (IF c = 0 THEN 0 ELSE IF c < d THEN 1 ELSE IF c = d THEN 2 ELSE 3)
  ELSE IF d = 0 THEN 4 ELSE (IF c > -d THEN 5 ELSE IF c = -d THEN 6 ELSE IF c > 0 THEN 7 ELSE 8)
\* squared distance of r to the segment pq, times its squared length
DistTimesLen(p, q, r) ==
  LET l == Dist2(p, q) t == Dot(p, q, r) IN
  IF t <= 0 THEN Dist2(p, r)*l ELSE IF t >= l THEN Dist2(q, r)*l ELSE Cross(p, q, r)*Cross(p, q, r)
\* ---------------------------------------------------------------- four points
InOnTri(v, p, q, r) == Cross(p, q, v) >= 0 /\ Cross(q, r, v) >= 0 /\ Cross(r, p, v) >= 0
InTri(v, p, q, r)   == Cross(p, q, v) > 0 /\ Cross(q, r, v) > 0 /\ Cross(r, p, v) > 0
BoxOverlap(a, b, c, d) == /\ Min(a[1], b[1]) <= Max(c[1], d[1]) /\ Min(c[1], d[1]) <= Max(a[1], b[1])
                          /\ Min(a[2], b[2]) <= Max(c[2], d[2]) /\ Min(c[2], d[2]) <= Max(a[2], b[2])
Bits4(a, b, c, d) ==
  << B(Crossing(a, b, c, d)), B(Touching(a, b, c, d)), B({a, b} = {c, d} /\ (a = b) = (c = d)),
     IF Cross(b, c, d) > 0 THEN B(InOnTri(a, b, c, d)) ELSE 2, IF Cross(b, c, d) > 0 THEN B(InTri(a, b, c, d)) ELSE 2,
     B(BoxOverlap(a, b, c, d)) >>
PolyArea2(s) == SumOver(LAMBDA k : s[k][1]*s[(k % Len(s)) + 1][2] - s[(k % Len(s)) + 1][1]*s[k][2], DOMAIN s)
\* ---------------------------------------------------------------- elements (convex, counter-clockwise)
Sides(e) == {<<e[k], e[(k % Len(e)) + 1]>> : k \in DOMAIN e}
Convex(e) == /\ \A k \in DOMAIN e : \A j \in DOMAIN e : Cross(e[k], e[(k % Len(e)) + 1], e[j]) >= 0
             /\ PolyArea2(e) > 0 /\ Cardinality({e[k] : k \in DOMAIN e}) = Len(e)
Holds(e, v)  == \A s \in Sides(e) : Cross(s[1], s[2], v) >= 0
HoldsS(e, v) == \A s \in Sides(e) : Cross(s[1], s[2], v) > 0
\* the interiors of two convex elements are disjoint iff a side separates them
Separated(e, f) == \E s \in Sides(e) : \A k \in DOMAIN f : Cross(s[1], s[2], f[k]) <= 0
Overlap(e, f) == ~Separated(e, f) /\ ~Separated(f, e)
SidesTouch(e, f) == \E s \in Sides(e), t \in Sides(f) : Touching(s[1], s[2], t[1], t[2])
Bits5(a, b, c, d, e) ==
  << B(\E t \in Sides(<<c, d, e>>) : Touching(a, b, t[1], t[2])), B(\E t \in Sides(<<c, d, e>>) : Crossing(a, b, t[1], t[2])),
     IF Convex(<<b, c, d, e>>) THEN B(HoldsS(<<b, c, d, e>>, a)) ELSE 2, IF Convex(<<b, c, d, e>>) THEN B(Holds(<<b, c, d, e>>, a)) ELSE 2 >>
\* two elements collide if they overlap or a corner or side of one meets the interior of a side of the other
Collide(e, f) == Overlap(e, f) \/ SidesTouch(e, f)
BitsEE(e, f) == << B(Collide(e, f)), B(Collide(e, f)), B(SidesTouch(e, f)) >>
BitsEV(e, v) == << B(Holds(e, v)), B(Holds(e, v)) >>

\* ---------------------------------------------------------------- model
CONSTANT N
VARIABLE t
Cells == (0..N) \X (0..N)
GInit == t \in Cells \X Cells \X Cells \X Cells
GNext == UNCHANGED t
GSpec == GInit /\ [][GNext]_t
Laws ==
  LET a == t[1] b == t[2] c == t[3] d == t[4] IN
  /\ Cross(a, b, c) = Cross(b, c, a) /\ Cross(a, b, c) = -Cross(b, a, c)
  /\ Crossing(a, b, c, d) = Crossing(d, c, a, b) /\ Touching(a, b, c, d) = Touching(d, c, a, b)
  /\ Crossing(a, b, c, d) => Touching(a, b, c, d) /\ BoxOverlap(a, b, c, d)
  /\ Touching(a, b, c, d) => BoxOverlap(a, b, c, d)
  /\ DistTimesLen(a, b, c) = DistTimesLen(b, a, c)
  /\ (a # b => (DistTimesLen(a, b, c) = 0) = InOnSeg(a, b, c))
  /\ AngleClass(a, b, c) = AngleClass(a, c, b)
  /\ Cross(b, c, d) > 0 => /\ (InTri(a, b, c, d) => InOnTri(a, b, c, d))
                           /\ InOnTri(a, b, c, d) = InOnTri(a, c, d, b)
                           /\ (InOnTri(a, b, c, d) /\ ~InTri(a, b, c, d)) = (InOnSeg(b, c, a) \/ InOnSeg(c, d, a) \/ InOnSeg(d, b, a))
                           \* exact subdivision: the three triangles around a have the area of the whole iff a is inside
                           /\ InOnTri(a, b, c, d) = (Abs(Cross(a, b, c)) + Abs(Cross(a, c, d)) + Abs(Cross(a, d, b)) = Cross(b, c, d))
  /\ PolyArea2(<<a, b, c, d>>) = Cross(a, b, c) + Cross(a, c, d)
  /\ Convex(<<a, b, c, d>>) => Overlap(<<a, b, c, d>>, <<b, c, d, a>>)
=============================================================================
