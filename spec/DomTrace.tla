------------------------------ MODULE DomTrace ------------------------------
(***************************************************************************)
(* Validates recorded domain definitions of the real library against Dom.tla *)
(* TRACE: one history per line, [id, ev].  An event carries the call (op,     *)
(* arguments), the result and, as "o", the domain as observed afterwards:     *)
(*   o.B = seq of [t, ed = seq of <<x1,y1,x2,y2,colour,size,range,size100,range100>>, a2, cl]  *)
(*   (size, range: of the first vertex; again in hundredths of the unit), o.ext, o.a2, o.valid, o.fx           *)
(***************************************************************************)
EXTENDS Dom, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES sid, l, fails, pts    \* pts: the domain's vertices, point -> <<size, range>>
tvars == <<bs, hist, sid, l, fails, pts>>
Ev == Traces[sid].ev
Ob(t, ok) == IF ok THEN {} ELSE {t}
EdgesOf(b) == {<<<<b.ed[k][1], b.ed[k][2]>>, <<b.ed[k][3], b.ed[k][4]>>, b.ed[k][5]>> : k \in DOMAIN b.ed}
Seen(o) == [k \in DOMAIN o.B |-> [t |-> o.B[k].t, ed |-> EdgesOf(o.B[k])]]
\* vertices that a shape adds (existing ones are reused); the points of circles are only approximately on
\* the lattice, so whether they coincide with other points is left open
AddPts(P, sh, kind) == LET new == {<<Pt(sh, k), k>> : k \in DOMAIN sh} IN
   [q \in DOMAIN P \cup {n[1] : n \in new} |-> IF q \in DOMAIN P THEN (IF q \in {n[1] : n \in new} /\ (kind = 2 \/ P[q][1] = 2) THEN <<3, 0, 0>> ELSE P[q])
        ELSE LET k == CHOOSE k \in DOMAIN sh : Pt(sh, k) = q IN <<kind, sh[k][4], sh[k][5]>>]
With(P, q, v) == IF q \in DOMAIN P THEN P ELSE [r \in DOMAIN P \cup {q} |-> IF r = q THEN v ELSE P[r]]

Put(P, q, v) == [r \in DOMAIN P \cup {q} |-> IF r = q THEN v ELSE P[r]]
Soft(b, P) == Len(b) > 1 /\ \E q \in DOMAIN P : P[q][1] >= 2
\* expected boundaries after the call: a set of alternatives
Expect(e) ==
  CASE e.e = "bdry" -> {Append(bs, [t |-> e.t, ed |-> {}])}
    [] e.e \in {"shape", "csv", "rect", "square", "circle"} -> {[bs EXCEPT ![e.k].ed = E] : E \in Oriented(bs[e.k].t, ShapeEdges(e.s))}
    [] e.e = "edges" -> {[bs EXCEPT ![e.k].ed = ShapeEdges(e.s)]}
    [] e.e = "open" -> {[bs EXCEPT ![e.k].ed = OpenEdges(e.s)]}
    [] e.e = "split" -> LET d == CHOOSE d \in bs[e.k].ed : d[1] = e.p /\ d[2] = e.q IN {[bs EXCEPT ![e.k].ed = Split(@, d, e.n)]}
    [] e.e = "cut" -> {[bs EXCEPT ![e.k].ed = {d \in @ : ~(d[1] = e.p /\ d[2] = e.q)}]}
    [] e.e = "rmb" -> {SubSeq(bs, 1, e.k-1) \o SubSeq(bs, e.k+1, Len(bs))}
    [] e.e = "badcsv" -> {bs}
    [] e.e = "fix" -> {bs}
    [] e.e = "in" -> {bs}
    [] e.e = "mesh" -> {bs}
    [] e.e = "sub" -> {bs}
    [] e.e = "ngon" -> {bs}
    [] OTHER -> {}
NewPts(e) ==
  CASE e.e \in {"shape", "csv", "rect", "square", "circle", "edges", "open"} -> AddPts(pts, e.s, IF e.e = "circle" THEN 2 ELSE 1)
    [] e.e = "split" -> LET d == CHOOSE d \in bs[e.k].ed : d[1] = e.p /\ d[2] = e.q IN
                        Put(pts, SplitPoint(d, e.n), <<0, 0, 0>>)
    [] e.e = "fix" -> With(pts, <<e.x, e.y>>, <<0, 0, 0>>)
    [] OTHER -> pts
MinOf(S) == CHOOSE m \in S : \A n \in S : m <= n
MaxOf(S) == CHOOSE m \in S : \A n \in S : m >= n

State(e, o, b, P) ==
  Ob("C21.boundaries", Seen(o) = b)
  \cup Ob("C21.no-doubled-edges", \A k \in DOMAIN o.B : Len(o.B[k].ed) = Cardinality(EdgesOf(o.B[k])))
  \cup Ob("C21.boundary-area", DOMAIN o.B = DOMAIN b /\ \A k \in DOMAIN b : Closed(b[k].ed) => o.B[k].a2 = Area2(b[k].ed))
  \cup Ob("C21.domain-area", (\A k \in DOMAIN b : Closed(b[k].ed)) => o.a2 = SumOver(LAMBDA k : Area2(b[k].ed), DOMAIN b))
  \cup Ob("C21.extent", DOMAIN P # {} => o.ext = <<MinOf({p[1] : p \in DOMAIN P}), MaxOf({p[1] : p \in DOMAIN P}),
                                                   MinOf({p[2] : p \in DOMAIN P}), MaxOf({p[2] : p \in DOMAIN P})>>)
  \cup Ob("C21.vertex-sizes", \A k \in DOMAIN o.B : \A i \in DOMAIN o.B[k].ed :
         LET r == o.B[k].ed[i] q == <<r[1], r[2]>> v == IF q \in DOMAIN P THEN P[q] ELSE <<0, 0, 0>> IN
         v[1] \in {1, 2} => <<r[6], r[7]>> = <<v[2], v[3]>>)
  \cup Ob("C12.refuse", Bad(b) /\ ~Soft(b, P) => o.valid = 0)
  \cup Ob("C12.accept", Good(b) /\ ~Soft(b, P) => o.valid = 1)
  \cup Ob("C21.call-result", e.e \in {"split", "cut"} => e.ret = 1)
  \cup Ob("C18.malformed-file-refused", e.e = "badcsv" => e.ret = 0)
  \cup Ob("C18.malformed-file-leaves-boundary", e.e = "badcsv" => Seen(o) = b)
  \cup (IF e.e # "csv" THEN {} ELSE
         Ob("C18.edges-and-colours-as-in-file", Seen(o) = b /\ e.k \in DOMAIN o.B /\ Len(o.B[e.k].ed) = Len(e.s))
         \cup Ob("C18.sizes-as-in-file", e.k \in DOMAIN o.B => \A i \in DOMAIN o.B[e.k].ed :
              LET r == o.B[e.k].ed[i] q == <<r[1], r[2]>> v == IF q \in DOMAIN P THEN P[q] ELSE <<0, 0, 0>> IN v[1] \in {1, 2} => <<r[6], r[7]>> = <<v[2], v[3]>>))
  \cup Ob("C21.call-did-not-return", e.e # "abort")
\* the local size at the probed points, in hundredths (o.pr), never exceeds the user's function (o.pf) ...
FixEvents == {Traces[sid].ev[j] : j \in {j \in 1..l : Traces[sid].ev[j].e = "fix" /\ Traces[sid].ev[j].ms > 0}}
AllEdges(b) == UNION {b[k].ed : k \in DOMAIN b}
ISqLe(h, l2) == h <= 0 \/ (h-1)*(h-1) <= 10000*l2          \* h/100 <= sqrt(l2), up to rounding
ISqGe(h, l2) == (h+1)*(h+1) >= 10000*l2
Corner(o, p) == UNION {{<<o.B[k].ed[i][6], Dist2(<<o.B[k].ed[i][1], o.B[k].ed[i][2]>>, <<o.B[k].ed[i][3], o.B[k].ed[i][4]>>)>> :
                        i \in {i \in DOMAIN o.B[k].ed : <<o.B[k].ed[i][1], o.B[k].ed[i][2]>> = p}} : k \in DOMAIN o.B}
Into(o, p) == UNION {{Dist2(<<o.B[k].ed[i][1], o.B[k].ed[i][2]>>, <<o.B[k].ed[i][3], o.B[k].ed[i][4]>>) :
                        i \in {i \in DOMAIN o.B[k].ed : <<o.B[k].ed[i][3], o.B[k].ed[i][4]>> = p}} : k \in DOMAIN o.B}
\* contributions of the corners: <<point, declared size (in hundredths), squared range (rounded down), squared length of the edge, squared range (rounded up)>>
Contrib(p, r, l2) == IF r[9] > 0 THEN <<p, r[8], (r[9] \div 100)*(r[9] \div 100), l2, ((r[9] \div 100)+1)*((r[9] \div 100)+1)>> ELSE <<p, r[8], l2, l2, l2>>
Contribs(o) == UNION {UNION {LET r == o.B[k].ed[i] p == <<r[1], r[2]>> q == <<r[3], r[4]>> l2 == Dist2(p, q)
                                 n == {j \in DOMAIN o.B[k].ed : <<o.B[k].ed[j][1], o.B[k].ed[j][2]>> = q} IN
                             {Contrib(p, r, l2)} \cup {Contrib(q, o.B[k].ed[j], l2) : j \in n}
                             : i \in DOMAIN o.B[k].ed} : k \in DOMAIN o.B}
\* the range is widened where edge length and size differ; beyond three times the range there is no effect
Reaches(c, h, d2) == LET up == (h \div 100) + 1 lo == h \div 100 s2 == c[5] l2 == c[4] IN
   \/ d2 <= 9*s2
   \/ (IF s2 = l2 THEN d2 <= 9*up*up ELSE d2*l2 <= 9*s2*up*up)
   \/ ((d2*lo*lo) \div l2) <= 9*s2 + 9
Grows == {"shape", "csv", "rect", "square", "circle", "edges", "open", "fix"}
Same2 == {"bdry", "badcsv", "in", "mesh", "sub"}
Sizes(e, o, b) ==
  Ob("C13.size-within-user-size", \A i \in DOMAIN o.pr : o.pr[i] > 0 /\ o.pr[i] <= o.pf[i])
  \* ... nor the size declared at a corner or fixed point, nor the length of the declared edges that meet there
  \cup Ob("C13.size-at-corner", \A i \in DOMAIN o.pr : \A c \in Corner(o, o.pp[i]) :
            (c[1] > 0 => o.pr[i] <= 100*c[1]+1) /\ ISqLe(o.pr[i], c[2]))
  \cup Ob("C13.size-at-corner", \A i \in DOMAIN o.pr : \A c \in Into(o, o.pp[i]) : ISqLe(o.pr[i], c))
  \cup Ob("C13.size-at-fixed-point", \A i \in DOMAIN o.pr : \A j \in 1..l : LET f == Traces[sid].ev[j] IN
            (f.e = "fix" /\ f.ms > 0 /\ <<f.x, f.y>> = o.pp[i]) => o.pr[i] <= 100*f.ms+1)
  \* ... a declared size governs its surroundings (a quarter of its range; by default the edge length or the local size)
  \cup Ob("C13.size-near-corner", \A i \in DOMAIN o.pr : \A c \in Contribs(o) :
            16*Dist2(c[1], o.pp[i]) <= c[3] =>
              (c[2] > 0 => 100*o.pr[i] <= 94*c[2] + 6*o.pf[i] + 200) /\ ISqLe((100*o.pr[i] - 6*o.pf[i] - 200) \div 94, c[4]))
  \cup Ob("C13.size-near-fixed-point", \A i \in DOMAIN o.pr : \A f \in FixEvents :
            LET s2 == IF f.sr > 0 THEN f.sr*f.sr ELSE (o.pf[i] \div 100)*(o.pf[i] \div 100) IN
            16*Dist2(<<f.x, f.y>>, o.pp[i]) <= s2 => 100*o.pr[i] <= 94*100*f.ms + 6*o.pf[i] + 200)
  \* ... and nothing but the declarations in whose reach the point lies reduces the size, and not below all of them
  \cup Ob("C13.size-not-below-declared", \A i \in DOMAIN o.pr :
            \/ 100*o.pr[i] >= 99*o.pf[i]-200
            \/ \E c \in Contribs(o) : Reaches(c, o.pf[i], Dist2(c[1], o.pp[i])) /\ (ISqGe(o.pr[i], c[4]) \/ (c[2] > 0 /\ o.pr[i] >= c[2]-1))
            \/ \E f \in FixEvents : o.pr[i] >= 100*f.ms-1 /\
                 LET s == IF f.sr > 0 THEN f.sr ELSE (o.pf[i] \div 100) + 1 IN Dist2(<<f.x, f.y>>, o.pp[i]) <= 9*s*s)
  \* declaring more only refines, removing only coarsens, queries change nothing
  \cup (IF l = 1 THEN {} ELSE LET q == Ev[l-1].o.pr IN
         Ob("C13.more-declarations-refine", e.e \in Grows => \A i \in DOMAIN q : o.pr[i] <= q[i])
         \cup Ob("C13.removal-coarsens", e.e \in {"rmb", "cut"} => \A i \in DOMAIN q : o.pr[i] >= q[i])
         \cup Ob("C13.query-changes-size", e.e \in Same2 => o.pr = q))
\* subdivision of the declared edges: sd = seq of <<x1, y1, x2, y2, t, s, w, lo, hi>>: positions t of the mesh vertices
\* in 1/10000 of the edge, sizes s there and lengths w of the parts in hundredths;
\* x[8], x[9]: smallest and largest size along the edge
Subdivided(e, b) ==
  Ob("C13.every-edge-subdivided", {<<<<x[1], x[2]>>, <<x[3], x[4]>>>> : x \in ToSet(e.sd)} = {<<d[1], d[2]>> : d \in AllEdges(b)})
  \cup UNION {LET x == e.sd[j] T == x[5] s == x[6] w == x[7] IN
       Ob("C13.edge-ends-kept", Len(T) >= 2 /\ T[1] = 0 /\ T[Len(T)] = 10000 /\ \A k \in 1..(Len(T)-1) : T[k] < T[k+1])
       \* no part is much longer than the size along the edge asks for ...
       \cup Ob("C13.edge-too-coarse", \A k \in DOMAIN w : 10*w[k] <= 16*x[9])
       \* ... nor much shorter where the size is nearly constant along the edge
       \cup Ob("C13.edge-too-fine", (Len(T) > 2 /\ 10*x[9] <= 14*x[8]) => \A k \in DOMAIN w : 10*w[k] >= 3*x[8])
       : j \in DOMAIN e.sd}
  \* where the size is nearly the same everywhere, so is the size of the elements (mx: longest side, as: sum of areas, in units of the size)
  \cup (IF e.ret = 1 /\ e.ne >= 20 /\ 10*e.hi <= 14*e.lo
        THEN Ob("C13.elements-too-coarse", e.mx <= 350 /\ e.as <= 110*e.ne) \cup Ob("C13.elements-too-fine", e.as >= 30*e.ne) ELSE {})
\* queries
Query(e, b, P) ==
  CASE e.e = "in" ->
         LET p == <<e.x, e.y>> IN
         Ob("C21.point-location", (\A k \in DOMAIN b : Closed(b[k].ed)) /\ ~OnSome(b, p) => (e.d = 1) = InDomain(b, p))
         \cup Ob("C21.point-in-boundary", \A k \in DOMAIN b : Closed(b[k].ed) /\ Cardinality(b[k].ed) >= 3 =>
                 k \in DOMAIN e.b /\ (e.b[k] = 1) = (OnCurve(b[k].ed, p) \/ Inside(b[k].ed, p)))
    [] e.e = "ngon" ->      \* a built-in shape on its own
         LET nn == IF e.kd = 0 THEN e.n ELSE IF e.kd = 1 THEN 3 ELSE 4 IN
         IF e.kd = 0 /\ e.n < 3 THEN Ob("C21.shape-edges", e.ne = 0)
         ELSE Ob("C21.shape-edges", e.ne = nn /\ e.nv = nn /\ e.cl = 1)
              \cup Ob("C21.shape-orientation", e.sg = 1 - 2*e.t)
              \cup Ob("C21.shape-colour-and-size", e.cs = <<e.c>> /\ e.ms = <<<<100*e.s, 100*e.r>>>>)
              \cup Ob("C21.shape-position", e.cd <= 1 /\ e.rd <= 1 /\ (e.kd < 2 => e.sd <= 1))
              \cup Ob("C21.shape-area", CASE e.kd = 0 -> e.ar - RegularArea[e.n] \in -1..1
                                          [] e.kd = 1 -> e.ar - 433 \in -1..1
                                          [] OTHER -> e.ar = 1000)
              \cup Ob("C21.shape-extent", CASE e.kd = 2 -> e.bb = <<-50*e.w, 50*e.w, -50*e.h, 50*e.h>>
                                            [] e.kd = 3 -> e.bb = <<-50*e.w, 50*e.w, -50*e.w, 50*e.w>>
                                            [] e.kd = 0 -> e.bb[2] = 100*e.w
                                            [] OTHER -> TRUE)
    [] e.e = "sub" -> IF Good(b) /\ ~Soft(b, P) THEN Subdivided(e, b) ELSE {}
    [] e.e = "mesh" ->      \* what the generator does with the domain
         Ob("C12.refused-domain-stays-empty", Bad(b) /\ ~Soft(b, P) => e.nb = 0 /\ e.nv = 0 /\ e.ne = 0 /\ e.ret # 1)
         \cup Ob("C12.accepted-domain-has-boundary", Good(b) /\ ~Soft(b, P) => e.nb > 0)
    [] OTHER -> {}
Mine(F) == {f \in F : SubSeq(f, 1, 3) = Prop}

TInit == sid \in DOMAIN Traces /\ l = 1 /\ fails = {} /\ bs = <<>> /\ hist = <<>> /\ pts = [q \in {} |-> 0]
TNext == /\ l <= Len(Ev) /\ fails = {}
         /\ l' = l + 1 /\ UNCHANGED <<sid, hist>>
         /\ LET e == Ev[l] IN
            IF e.e = "abort" THEN /\ fails' = {Prop \o ".call-did-not-return"} /\ bs' = bs /\ pts' = pts
            ELSE LET X == Expect(e) P == NewPts(e)
                     b == IF Seen(e.o) \in X THEN Seen(e.o) ELSE CHOOSE x \in X : TRUE IN
                 /\ bs' = b /\ pts' = P
                 /\ fails' = Mine(State(e, e.o, b, P) \cup Query(e, b, P) \cup (IF Prop = "C13" THEN Sizes(e, e.o, b) ELSE {}))
         /\ IF fails' # {} THEN PrintT(<<"FAIL", ToJson([id |-> Traces[sid].id, at |-> l, e |-> Ev[l].e, tags |-> SetToSeq(fails')])>>) ELSE TRUE
TSpec == TInit /\ [][TNext]_tvars
Accepted == fails = {}
View == <<sid, l, fails>>
=============================================================================
