------------------------------ MODULE GeoTrace ------------------------------
(***************************************************************************)
(* Compares the tabulated predicates of the real library with Geo.tla.       *)
(* TRACE: one record per line:                                               *)
(*  c = t3, t4, t5: all tuples over an n x n lattice that start with f;       *)
(*      r = answers in lexicographic order                                    *)
(*  c = s3, s4, s5: explicit tuples, x = seq of <<points, answer>>            *)
(*  c = ee: element a against elements, x = seq of <<element, answer>>        *)
(*  c = ev: element a against points,  x = seq of <<point, answer>>           *)
(***************************************************************************)
EXTENDS Geo, Json, IOUtils, SequencesExt

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, fails
tvars == <<t, i, fails>>
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k-1)
\* positions of wrong bits
Wrong(m, b) == {k \in DOMAIN b : b[k] # 2 /\ (m \div Pow2(k-1)) % 2 # b[k]}
Names == [t3 |-> <<"is_left", "is_lefton", "orientation", "orientation", "orientation", "in_segment", "in_on_segment", "in_on_rect", "in_rect", "equal", "unequal">>,
          t4 |-> <<"line_line_crossing", "line_line_intersection", "segment_overlap", "in_on_triangle", "in_triangle", "rect_overlap">>,
          t5 |-> <<"line_tri_intersection", "line_tri_crossing", "in_quad", "in_on_quad">>,
          ee |-> <<"element-intersects", "element-intersects", "edge-intersection">>,
          ev |-> <<"intersects_vertex", "intersects_vertex">>]
Tags(n, W) == {Names[n][k] : k \in W}
J3(p, q, r, a) == Tags("t3", Wrong(a[1], Bits3(p, q, r)))
                  \cup (IF p # q /\ p # r /\ a[2] # AngleClass(p, q, r) THEN {"angle"} ELSE {})
                  \cup (IF p # q /\ a[3] # DistTimesLen(p, q, r) THEN {"distance_point_edge_sqr"} ELSE {})
J4(p, q, r, s, a) == Tags("t4", Wrong(a[1], Bits4(p, q, r, s)))
                  \cup (IF a[2] # PolyArea2(<<p, q, r, s>>) THEN {"polygon_area"} ELSE {})
J5(p, q, r, s, u, a) == Tags("t5", Wrong(a, Bits5(p, q, r, s, u)))
Pt(n, k) == <<k \div n, k % n>>      \* k from 0
Judge(e) ==
  CASE e.c = "t3" -> LET n == e.n M == n*n IN {<<J3(e.f[1], Pt(n, k \div M), Pt(n, k % M), e.r[k+1]), k>> : k \in 0..(M*M-1)}
    [] e.c = "t4" -> LET n == e.n M == n*n IN {<<J4(e.f[1], e.f[2], Pt(n, k \div M), Pt(n, k % M), e.r[k+1]), k>> : k \in 0..(M*M-1)}
    [] e.c = "t5" -> LET n == e.n M == n*n IN {<<J5(e.f[1], e.f[2], Pt(n, k \div (M*M)), Pt(n, (k \div M) % M), Pt(n, k % M), e.r[k+1]), k>> : k \in 0..(M*M*M-1)}
    [] e.c = "s3" -> {<<J3(e.x[k][1][1], e.x[k][1][2], e.x[k][1][3], e.x[k][2]), k>> : k \in DOMAIN e.x}
    [] e.c = "s4" -> {<<J4(e.x[k][1][1], e.x[k][1][2], e.x[k][1][3], e.x[k][1][4], e.x[k][2]), k>> : k \in DOMAIN e.x}
    [] e.c = "s5" -> {<<J5(e.x[k][1][1], e.x[k][1][2], e.x[k][1][3], e.x[k][1][4], e.x[k][1][5], e.x[k][2]), k>> : k \in DOMAIN e.x}
    [] e.c = "ee" -> {<<Tags("ee", Wrong(e.x[k][2], BitsEE(e.a, e.x[k][1]))), k>> : k \in DOMAIN e.x}
    [] e.c = "ev" -> {<<Tags("ev", Wrong(e.x[k][2], BitsEV(e.a, e.x[k][1]))), k>> : k \in DOMAIN e.x}
Complete(e) == CASE e.c = "t3" -> Len(e.r) = e.n*e.n*e.n*e.n [] e.c = "t4" -> Len(e.r) = e.n*e.n*e.n*e.n
                 [] e.c = "t5" -> Len(e.r) = e.n*e.n*e.n*e.n*e.n*e.n [] OTHER -> Len(e.x) > 0
What(e, k) == IF e.c \in {"t3", "t4", "t5"} THEN [f |-> e.f, k |-> k, n |-> e.n, ans |-> e.r[k+1]] ELSE IF e.c \in {"ee", "ev"} THEN [a |-> e.a, x |-> e.x[k]] ELSE [x |-> e.x[k]]
TInit == t = <<>> /\ i \in DOMAIN Recs /\ fails = {<<{"todo"}, 0>>}
TNext == /\ fails = {<<{"todo"}, 0>>} /\ UNCHANGED <<t, i>>
         /\ fails' = {j \in Judge(Recs[i]) : j[1] # {}} \cup (IF Complete(Recs[i]) THEN {} ELSE {<<{"incomplete-record"}, 0>>})
         /\ \A j \in fails' : PrintT(<<"FAIL", ToJson([c |-> Recs[i].c, tags |-> SetToSeq(j[1]), what |-> IF j[2] = 0 /\ Recs[i].c \notin {"t3","t4","t5"} THEN [none |-> 0] ELSE What(Recs[i], j[2])])>>)
TSpec == TInit /\ [][TNext]_tvars
Accepted == fails \in {{<<{"todo"}, 0>>}, {}}
View == <<i, fails = {<<{"todo"}, 0>>}>>
=============================================================================
