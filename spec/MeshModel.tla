------------------------------ MODULE MeshModel ------------------------------
(***************************************************************************)
(* Generative model of the mesh generator on an integer lattice.  The        *)
(* domains are polygons with lattice corners; every operation is as          *)
(* nondeterministic as the specification allows (any advancing-front         *)
(* triangle that keeps the mesh valid, any maximal pairing, ...).            *)
(*                                                                         *)
(* It is checked exhaustively (MeshModel*.cfg) that                           *)
(*   Sound     - every state and every call of the model satisfies all the   *)
(*               obligations that the traces of the real library are judged  *)
(*               by (MeshCore, MeshOps): they are satisfiable and mutually   *)
(*               consistent, i.e. no correct implementation is rejected;     *)
(*   Progress  - a simple polygon can always be filled, whatever triangles   *)
(*               were chosen before (the ground for C03.simple-domain-is-    *)
(*               filled);                                                   *)
(*   Sensitive - every single fault injected into the result of a call       *)
(*               (a lost, doubled, recoloured, inverted element, a lost or   *)
(*               re-marked edge, a lost vertex, a wrong return value, a lost *)
(*               link between meshes) violates an obligation.                *)
(***************************************************************************)
EXTENDS MeshOps, Poly

CONSTANTS NX, NY,      \* lattice 0..NX x 0..NY
          MaxCalls,    \* calls per behaviour
          Kind         \* "single", "pair"

\* ------------------------------------------------------------ points: id <-> coordinates (12 units per lattice step)
Id(q) == 100 * q[1] + q[2] + 1
Xy(p) == <<(p - 1) \div 100, (p - 1) % 100>>
Lat   == {Id(<<12*x, 12*y>>) : x \in 0..NX, y \in 0..NY}
C3(a, b, c) == Cross(Xy(a), Xy(b), Xy(c))
Mid(a, b) == Id(<<(Xy(a)[1] + Xy(b)[1]) \div 2, (Xy(a)[2] + Xy(b)[2]) \div 2>>)
RECURSIVE SumC(_, _)
SumC(q, k) == IF q = <<>> THEN 0 ELSE Xy(q[1])[k] + SumC(Tail(q), k)
Centre(q) == Id(<<SumC(q, 1) \div Len(q), SumC(q, 2) \div Len(q)>>)

\* ------------------------------------------------------------ polygons
Cyc(q) == {<<q[i], IF i = Len(q) THEN q[1] ELSE q[i+1]>> : i \in DOMAIN q}
XyE(S) == {<<Xy(d[1]), Xy(d[2]), 0>> : d \in S}
Dbl(q) == SumOver(LAMBDA d : Xy(d[1])[1]*Xy(d[2])[2] - Xy(d[2])[1]*Xy(d[1])[2], Cyc(q))     \* twice the area
SimplePoly(q) ==
  LET E == Cyc(q) IN
  /\ Cardinality(ToSet1(q)) = Len(q)
  /\ \A d \in E : \A f \in E : d # f =>
        ~Touching(Xy(d[1]), Xy(d[2]), Xy(f[1]), Xy(f[2])) /\ <<d[2], d[1]>> # f
  /\ \A i \in DOMAIN q : LET a == q[i] b == q[(i % Len(q)) + 1] c == q[((i+1) % Len(q)) + 1] IN C3(a, b, c) # 0
  /\ Dbl(q) > 0
\* the boundary edges of a polygon: its sides, split at the lattice points on them
OnSide(a, b) == {p \in Lat : InOnSeg(Xy(a), Xy(b), Xy(p))}
Parts(a, b) == LET P == OnSide(a, b)
                   D2(p) == Dist2(Xy(a), Xy(p))
               IN {<<p, q>> \in P \X P : D2(p) < D2(q) /\ ~\E r \in P : D2(p) < D2(r) /\ D2(r) < D2(q)}

LatMin == CHOOSE p \in Lat : \A q \in Lat : p <= q
PolysN(n) == {q \in [1..n -> Lat] : (\A i \in 2..n : q[1] < q[i]) /\ SimplePoly(q)}
L(x, y) == Id(<<12*x, 12*y>>)
Worlds == CASE Kind = "tri"    -> {<<q>> : q \in PolysN(3)}
            [] Kind = "quad"   -> {<<q>> : q \in PolysN(4)}
            [] Kind = "penta"  -> {<<q>> : q \in PolysN(5)}
            [] Kind = "hexa"   -> {<<q>> : q \in PolysN(6)}
            [] Kind = "pair"   -> {<<a, b>> : a \in {<<L(0,0), L(1,0), L(1,1), L(0,1)>>, <<L(0,0), L(1,0), L(1,1)>>},
                                             b \in {<<L(1,0), L(2,0), L(2,1), L(1,1)>>, <<L(1,0), L(2,1), L(1,1)>>}}
            [] Kind = "stack"  -> {<< <<L(0,0), L(2,0), L(2,1), L(0,1)>>, <<L(0,1), L(2,1), L(1,2)>> >>}
            [] Kind = "tri3"   -> {<< <<L(0,0), L(1,0), L(1,1)>>, <<L(1,0), L(2,0), L(1,1)>>, <<L(0,0), L(1,1), L(0,1)>> >>}

VARIABLES world,   \* sequence of polygons, one per domain
          ms,      \* mesh id -> [el, be, v, fx, doms]
          run,     \* triangulation in progress: [m, k, n] or [m |-> 0]
          pre,     \* mesh records before the last call
          ev,      \* the last call
          calls, nref
vars == <<world, ms, run, pre, ev, calls, nref>>

NoCall == [e |-> "none", m |-> 0, arg |-> 0, ret |-> 0, n |-> 0]
Idle == run.m = 0

\* ------------------------------------------------------------ mesh -> record
Sides(e) == LET q == Tail(e) IN Cyc(q)           \* model element: <<colour, p1, p2, ..>>
AllSides(els) == UNION {Sides(e) : e \in els}
SimpleCcw(q) == LET n == Len(q) IN
   /\ Dbl(q) > 0
   /\ n = 4 => /\ ~Touching(Xy(q[1]), Xy(q[2]), Xy(q[3]), Xy(q[4]))
               /\ ~Touching(Xy(q[2]), Xy(q[3]), Xy(q[4]), Xy(q[1]))
ElRec(e) == <<e[1], IF SimpleCcw(Tail(e)) THEN 1 ELSE 0>> \o Tail(e)
Col(m) == m
RecOf(M, m) ==
  LET s == M[m]
      els == SetToSeq(s.el)
      N == Len(els)
      owner(d) == IF \E i \in 1..N : d \in Sides(els[i]) THEN CHOOSE i \in 1..N : d \in Sides(els[i]) ELSE -1
      de == AllSides(s.el)
      bd == {<<b[1], b[2]>> : b \in s.be}
      ie == {Und(d) : d \in de} \ {Und(d) : d \in bd}
      ieq == SetToSeq(ie)
      beq == SetToSeq(s.be)
      vq == SetToSeq(s.v)
      bv == UNION {{d[1], d[2]} : d \in bd}
      ar == SumOver(LAMBDA e : Dbl(Tail(e)), s.el)
      da == SumOver(LAMBDA d : Dbl(world[d]), s.doms)
      poly == UNION {XyE(Cyc(world[d])) : d \in s.doms}
      side(q, i) == LET n == Len(q) IN <<q[(i % n) + 1], q[((i + 1) % n) + 1]>>
  IN [ m |-> m, id |-> m, col |-> Col(m),
       v |-> [i \in DOMAIN vq |-> <<vq[i], IF vq[i] \in s.fx THEN 1 ELSE 0, IF vq[i] \in bv THEN 1 ELSE 0, 0,
                                    IF Cardinality(s.doms) > 1 \/ OnCurve(poly, Xy(vq[i])) \/ Inside(poly, Xy(vq[i])) THEN 1 ELSE 0>>],
       el |-> [i \in 1..N |-> ElRec(els[i])],
       ie |-> [i \in DOMAIN ieq |-> <<ieq[i][1], ieq[i][2], owner(ieq[i]), owner(Rev(ieq[i]))>>],
       be |-> [i \in DOMAIN beq |-> LET b == beq[i] IN
                 <<b[1], b[2], b[3], b[4], owner(<<b[1], b[2]>>), b[5], IF b[5] = 0 THEN 0 ELSE b[2], IF b[5] = 0 THEN 0 ELSE b[1]>>],
       nb |-> [i \in 1..N |-> [k \in 1..Len(els[i])-1 |-> owner(Rev(side(Tail(els[i]), k)))]],
       doms |-> SetToSeq(s.doms),
       conn |-> 1, adj |-> 1, idx |-> 1, met |-> 0, eadj |-> 1, xov |-> 0,
       nq |-> Cardinality({e \in s.el : Len(e) = 5}), nt |-> Cardinality({e \in s.el : Len(e) = 4}),
       hang |-> Cardinality({p \in s.v : \E d \in de : InSeg(Xy(d[1]), Xy(d[2]), Xy(p))}),
       ovl |-> IF ar > da THEN 1 ELSE 0, full |-> IF ar = da THEN 1 ELSE 0,
       areaok |-> IF ar = da THEN 1 ELSE 0, ar |-> ar ]
Recs(M) == LET I == SetToSeq(DOMAIN M) IN [i \in DOMAIN I |-> RecOf(M, I[i])]
DomRec(w, d) ==
  LET q == w[d] n == Len(q) IN
  [ rings |-> 1, fv |-> <<>>, fe |-> <<>>,
    edges |-> [k \in 1..n |-> <<q[k], q[(k % n) + 1], 10*d + (k % 2)>>] ]
DD == [d \in DOMAIN world |-> DomRec(world, d)]
\* ------------------------------------------------------------ calls
\* every call fixes the records before it; `W' below is the state after it
Begin(m) == Idle /\ calls < MaxCalls /\ m \in DOMAIN ms
Done(e) == ev' = e /\ pre' = Recs(ms) /\ calls' = calls + 1 /\ run' = run
Stay == UNCHANGED <<world>>

Init == /\ world \in Worlds /\ ms = [m \in {} |-> 0] /\ run = [m |-> 0] /\ pre = <<>>
        /\ ev = NoCall /\ calls = 0 /\ nref = 0

\* the boundary of domain d: its sides, split where lattice points are; edges in contact
\* with an existing mesh become shared and take its marker
NewBe(d) == LET q == world[d] n == Len(q) IN
   UNION {{<<x[1], x[2], 10*d + (k % 2), 1000*d + k, 0>> : x \in Parts(q[k], q[(k % n) + 1])} : k \in 1..n}
New == /\ Idle /\ calls < MaxCalls
       /\ \E d \in DOMAIN world \ UNION {ms[x].doms : x \in DOMAIN ms} :
            LET touch(b) == {o \in DOMAIN ms : \E c \in ms[o].be : c[1] = b[2] /\ c[2] = b[1]}
                link(b) == LET T == touch(b) IN
                           IF T = {} THEN b
                           ELSE LET o == CHOOSE o \in T : TRUE
                                    c == CHOOSE c \in ms[o].be : c[1] = b[2] /\ c[2] = b[1]
                                IN <<b[1], b[2], c[3], b[4], o>>
                be == {link(b) : b \in NewBe(d)}
                back(o) == {IF \E b \in be : b[5] = o /\ b[1] = c[2] /\ b[2] = c[1]
                            THEN <<c[1], c[2], c[3], c[4], d>> ELSE c : c \in ms[o].be}
                old == [o \in DOMAIN ms |-> [ms[o] EXCEPT !.be = back(o)]]
            IN /\ ms' = (d :> [el |-> {}, be |-> be, v |-> {b[1] : b \in be}, fx |-> {}, doms |-> {d}]) @@ old
               /\ Done([e |-> "New", m |-> d, arg |-> d, ret |-> 1, id |-> d, col |-> Col(d), n |-> Cardinality(DOMAIN ms) + 1])
       /\ UNCHANGED <<world, nref>>

\* ------------------------------------------------------------ triangulation: an advancing front
FrontOf(s) == LET de == AllSides(s.el)
                bd == {<<b[1], b[2]>> : b \in s.be}
            IN (bd \ de) \cup ({Rev(d) : d \in de} \ (de \cup {Rev(b) : b \in bd}))
\* p closes the front edge d to a valid triangle
InTri(a, b, c, p) == C3(a, b, p) >= 0 /\ C3(b, c, p) >= 0 /\ C3(c, a, p) >= 0
ValidTip(s, F, d, p) ==
  /\ C3(d[1], d[2], p) > 0
  /\ ~\E x \in s.v \ {d[1], d[2], p} : InTri(d[1], d[2], p, x)
  /\ \A f \in F : ~Touching(Xy(f[1]), Xy(f[2]), Xy(d[1]), Xy(p)) /\ ~Touching(Xy(f[1]), Xy(f[2]), Xy(d[2]), Xy(p))
Tips(s, F, d) == {p \in s.v \cup {q \in Lat : \E x \in s.doms : Inside(XyE(Cyc(world[x])), Xy(q)) /\ ~OnCurve(XyE(Cyc(world[x])), Xy(q))} :
                    ValidTip(s, F, d, p)}
BaseOf(F) == CHOOSE d \in F : TRUE
Full(s) == s.el # {} /\ FrontOf(s) = {}

StartTri == /\ calls < MaxCalls /\ Idle
            /\ \E m \in DOMAIN ms, k \in 0..2 :
                 /\ ms[m].el = {} \/ k = 0 \/ calls < 3
                 /\ run' = [m |-> m, k |-> k, n |-> 0]
                 /\ pre' = Recs(ms) /\ ev' = NoCall
            /\ UNCHANGED <<world, ms, calls, nref>>
Step == /\ ~Idle /\ FrontOf(ms[run.m]) # {} /\ (run.k = 0 \/ run.n < run.k)
        /\ LET s == ms[run.m] F == FrontOf(s) d == BaseOf(F) IN
           \E p \in Tips(s, F, d) :
              /\ ms' = [ms EXCEPT ![run.m].el = @ \cup {<<Col(run.m), d[1], d[2], p>>},
                                  ![run.m].v = @ \cup {p}]
              /\ run' = [run EXCEPT !.n = @ + 1]
        /\ UNCHANGED <<world, pre, ev, calls, nref>>
EndTri == /\ ~Idle /\ (FrontOf(ms[run.m]) = {} \/ (run.k > 0 /\ run.n = run.k))
          /\ ev' = [e |-> "Triangulate", m |-> run.m, arg |-> run.k, ret |-> 1, n |-> Cardinality(DOMAIN ms)]
          /\ run' = [m |-> 0] /\ calls' = calls + 1
          /\ UNCHANGED <<world, ms, pre, nref>>

\* ------------------------------------------------------------ conversion: any maximal pairing of triangles
RotE(e, d) == \* corner cycle of the triangle e starting with its side d
   LET q == Tail(e) k == CHOOSE k \in 1..3 : q[k] = d[1] IN [i \in 1..3 |-> q[((i + k - 2) % 3) + 1]]
PairQuad(e, f) ==
   LET d == CHOOSE d \in Sides(e) : Rev(d) \in Sides(f)
       a == RotE(e, d)  b == RotE(f, Rev(d))
   IN <<e[1], a[2], a[3], a[1], b[3]>>
Canon2(e) == LET q == Tail(e) n == Len(q)
                 k == CHOOSE i \in 1..n : \A j \in 1..n : q[i] <= q[j]
             IN <<e[1]>> \o [i \in 1..n |-> q[((i + k - 2) % n) + 1]]
Neigh(els) == {pr \in SUBSET {e \in els : Len(e) = 4} : Cardinality(pr) = 2 /\
                 \E e \in pr : \E f \in pr \ {e} : e[1] = f[1] /\ \E d \in Sides(e) : Rev(d) \in Sides(f)}
Matchings(els) == LET N == Neigh(els) IN
   {M \in SUBSET N : /\ \A a \in M : \A b \in M \ {a} : a \cap b = {}
                     /\ \A a \in N : \E b \in M : a \cap b # {}}
QuadOf(pr) == LET e == CHOOSE e \in pr : TRUE f == CHOOSE f \in pr \ {e} : TRUE IN Canon2(PairQuad(e, f))
Convert == /\ Idle /\ calls < MaxCalls
           /\ \E m \in DOMAIN ms : ms[m].el # {} /\ \E M \in Matchings(ms[m].el) :
                /\ ms' = [ms EXCEPT ![m].el = (@ \ UNION M) \cup {QuadOf(pr) : pr \in M}]
                /\ Done([e |-> "Tri2Quad", m |-> m, arg |-> 0, ret |-> 1, n |-> Cardinality(DOMAIN ms)])
           /\ UNCHANGED <<world, nref>>

\* ------------------------------------------------------------ refinement
Refine == /\ Idle /\ calls < MaxCalls /\ nref = 0
          /\ \E m \in DOMAIN ms : ms[m].el # {} /\
               LET s == ms[m]
                   r == RecOf(ms, m)
                   eds == [k \in 1..Len(r.ie) |-> <<r.ie[k][1], r.ie[k][2]>>] \o [k \in 1..Len(r.be) |-> <<r.be[k][1], r.be[k][2]>>]
                   mids == [k \in DOMAIN eds |-> <<eds[k][1], eds[k][2], Mid(eds[k][1], eds[k][2])>>]
                   sub(e) == LET q == Tail(e) n == Len(q) c == Centre(q) IN
                     {Canon2(<<e[1], q[k], Mid(q[k], q[(k % n) + 1]), c, Mid(q[((k + n - 2) % n) + 1], q[k])>>) : k \in 1..n}
                   w(e) == LET q == SubSeq(e, 3, Len(e)) n == Len(q) IN
                     <<Centre(q)>> \o [k \in 1..n |-> Mid(q[k], q[(k % n) + 1])]
                   twin == \E b \in s.be : b[5] # 0
                   call(ret) == [e |-> "Refine", m |-> m, arg |-> 0, ret |-> ret, n |-> Cardinality(DOMAIN ms),
                                 mids |-> mids, subs |-> [i \in DOMAIN r.el |-> w(r.el[i])]]
               IN IF twin THEN UNCHANGED <<ms, nref>> /\ Done(call(0))
                  ELSE /\ ms' = [ms EXCEPT ![m] = [@ EXCEPT
                                  !.el = UNION {sub(e) : e \in s.el},
                                  !.be = UNION {{<<b[1], Mid(b[1], b[2]), b[3], b[4], 0>>, <<Mid(b[1], b[2]), b[2], b[3], b[4], 0>>} : b \in s.be},
                                  !.v = @ \cup {x[3] : x \in ToSet1(mids)} \cup {Centre(Tail(e)) : e \in s.el}]]
                       /\ nref' = 1
                       /\ Done(call(1))
          /\ Stay

\* ------------------------------------------------------------ smoothing: one free vertex moves to a free position
Smooth == /\ Idle /\ calls < MaxCalls /\ nref = 0
          /\ \E m \in DOMAIN ms : ms[m].el # {} /\
               LET s == ms[m]
                   bv == UNION {{b[1], b[2]} : b \in s.be}
                   de == AllSides(s.el)
                   \* a free vertex: not fixed, surrounded by elements
                   free == {x \in s.v \ (bv \cup s.fx) : \A d \in de : (x \in {d[1], d[2]}) => Rev(d) \in de}
                   r == RecOf(ms, m)
                   to(e, p, q) == <<e[1]>> \o [i \in 1..Len(e)-1 |-> IF e[i+1] = p THEN q ELSE e[i+1]]
                   \* the vertex keeps its place in the sequence of vertices, so positions are compared through mv
               IN \E p \in free, q \in {Id(<<6*x, 6*y>>) : x \in 0..2*NX, y \in 0..2*NY} \ s.v :
                   LET nel == {Canon2(to(e, p, q)) : e \in s.el} IN
                   /\ \A e \in nel : SimpleCcw(Tail(e))
                   /\ ms' = [ms EXCEPT ![m].el = nel, ![m].v = (@ \ {p}) \cup {q}]
                   /\ Done([e |-> "Smooth", m |-> m, arg |-> 0, ret |-> 1, it |-> 1, n |-> Cardinality(DOMAIN ms), p |-> p, q |-> q])
          /\ UNCHANGED <<world, nref>>

\* ------------------------------------------------------------ merging
Merge == /\ Idle /\ calls < MaxCalls
         /\ \E a \in DOMAIN ms : \E b \in DOMAIN ms \ {a} :
              LET A == ms[a] B == ms[b]
                  sa == {x \in A.be : x[5] = b}   sb == {x \in B.be : x[5] = a}
                  cov(s, I) == \A x \in I : <<x[1], x[2]>> \in AllSides(s.el)
                  ok == sa # {} /\ cov(A, sa) /\ cov(B, sb)
                  ren(x) == IF x[5] = b THEN <<x[1], x[2], x[3], x[4], a>> ELSE x
                  M == [el |-> A.el \cup B.el, be |-> (A.be \ sa) \cup (B.be \ sb), v |-> A.v \cup B.v,
                        fx |-> A.fx \cup B.fx \cup UNION {{x[1], x[2]} : x \in sa}, doms |-> A.doms \cup B.doms]
                  call(ret) == [e |-> "Merge", m |-> a, arg |-> b, ret |-> ret, n |-> Cardinality(DOMAIN ms) - ret]
              IN IF ~ok THEN UNCHANGED ms /\ Done(call(0))
                 ELSE /\ ms' = [o \in DOMAIN ms \ {b} |-> IF o = a THEN M ELSE [ms[o] EXCEPT !.be = {ren(x) : x \in @}]]
                      /\ Done(call(1))
         /\ UNCHANGED <<world, nref>>

Check == /\ Idle /\ calls < MaxCalls
         /\ \E m \in DOMAIN ms : Done([e |-> "Check", m |-> m, arg |-> 0, ret |-> IF Full(ms[m]) THEN 1 ELSE 0, n |-> Cardinality(DOMAIN ms)])
         /\ UNCHANGED <<world, ms, nref>>

Next == New \/ StartTri \/ Step \/ EndTri \/ Convert \/ Refine \/ Smooth \/ Merge \/ Check
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what is checked
StateObs(X) == UNION {Conforming(X[i]) \cup BoundaryFidelity(X[i], DD) \cup FixedKept(X[i], DD) \cup Derived(X[i]) \cup Connectivity(X[i]) : i \in DOMAIN X}
               \cup Interfaces(X)
\* sequences in the record follow the order of the model's sets, so the witness of a
\* smoothing step is put in that order: the post record lists q where p was
SmoothPost(X, e) ==
  LET i == CHOOSE i \in DOMAIN X : X[i].m = e.m
      j == CHOOSE j \in DOMAIN pre : pre[j].m = e.m
      sub(x) == IF x = e.p THEN e.q ELSE x
      t == X[i]  s == pre[j]
      tv(x) == t.v[CHOOSE k \in DOMAIN t.v : t.v[k][1] = x]
      subE(x) == LET q == [k \in 1..Len(x)-2 |-> sub(x[k+2])] IN <<x[1], IF SimpleCcw(q) THEN 1 ELSE 0>> \o q
  IN [X EXCEPT ![i] = [t EXCEPT !.v = [k \in DOMAIN s.v |-> tv(sub(s.v[k][1]))],
                                !.el = [k \in DOMAIN s.el |-> subE(s.el[k])],
                                !.nb = s.nb,
                                !.ie = [k \in DOMAIN s.ie |-> <<sub(s.ie[k][1]), sub(s.ie[k][2]), s.ie[k][3], s.ie[k][4]>>],
                                !.be = s.be]]
Post == IF ev.e = "Smooth" THEN SmoothPost(Recs(ms), ev) ELSE Recs(ms)
Ev2 == IF ev.e # "Smooth" THEN ev
       ELSE LET s == Get(pre, ev.m) IN
            [ev EXCEPT !.p = 0] @@ [mv |-> [k \in DOMAIN s.v |-> <<s.v[k][1], IF s.v[k][1] = ev.p THEN ev.q ELSE s.v[k][1]>>]]
Verdict(X, e) == StateObs(X) \cup OpObs(pre, X, e, DD) \cup Frame(pre, X, e)
Sound == IF ev.e = "none" THEN UNION {Conforming(RecOf(ms, m)) : m \in DOMAIN ms} = {}
         ELSE Verdict(Post, Ev2) = {}
Progress == (~Idle /\ FrontOf(ms[run.m]) # {}) =>
               \A d \in FrontOf(ms[run.m]) : Tips(ms[run.m], FrontOf(ms[run.m]), d) # {}

\* ------------------------------------------------------------ single faults
Drop(q, i) == SubSeq(q, 1, i-1) \o SubSeq(q, i+1, Len(q))
Half == {Id(<<6*x, 6*y>>) : x \in 0..2*NX, y \in 0..2*NY}
Sub(x, p, q) == IF x = p THEN q ELSE x
SubEl(e, p, q) == LET c == [k \in 1..Len(e)-2 |-> Sub(e[k+2], p, q)] IN <<e[1], IF SimpleCcw(c) THEN 1 ELSE 0>> \o c
ValidMove(t, p, q) == \A i \in DOMAIN t.el : SubEl(t.el[i], p, q)[2] = 1
\* the whole mesh, consistently, with one vertex elsewhere
MovedTo(t, i, q) == LET p == t.v[i][1] IN
   [t EXCEPT !.v[i][1] = q, !.el = [k \in DOMAIN @ |-> SubEl(@[k], p, q)],
             !.ie = [k \in DOMAIN @ |-> <<Sub(@[k][1], p, q), Sub(@[k][2], p, q), @[k][3], @[k][4]>>]]
\* two triangles, consistently, replaced by the two across the other diagonal
Shared(t, i, j) == ElEdges(t.el[i]) \cap {Rev(d) : d \in ElEdges(t.el[j])}
Apex(e, d) == CHOOSE p \in ToSet1(ElV(e)) : p # d[1] /\ p # d[2]
Swappable(t, i, j) == /\ Len(t.el[i]) = 5 /\ Len(t.el[j]) = 5 /\ Cardinality(Shared(t, i, j)) = 1
   /\ LET d == CHOOSE d \in Shared(t, i, j) : TRUE a == Apex(t.el[i], d) b == Apex(t.el[j], d)
      IN C3(a, d[1], b) > 0 /\ C3(b, d[2], a) > 0 /\ t.el[i][1] = t.el[j][1]
Swapped(t, i, j) ==
   LET d == CHOOSE d \in Shared(t, i, j) : TRUE a == Apex(t.el[i], d) b == Apex(t.el[j], d)
       els == [k \in DOMAIN t.el |-> IF k = i THEN <<t.el[i][1], 1, a, d[1], b>> ELSE IF k = j THEN <<t.el[i][1], 1, b, d[2], a>> ELSE t.el[k]]
       own(f) == IF \E k \in DOMAIN els : f \in ElEdges(els[k]) THEN CHOOSE k \in DOMAIN els : f \in ElEdges(els[k]) ELSE -1
       side(q, n) == LET m == Len(q) IN <<q[(n % m) + 1], q[((n + 1) % m) + 1]>>
   IN [t EXCEPT !.el = els,
                !.ie = [k \in DOMAIN @ |-> LET x == IF Und(<<@[k][1], @[k][2]>>) = Und(d) THEN Und(<<a, b>>) ELSE <<@[k][1], @[k][2]>>
                                           IN <<x[1], x[2], own(x), own(Rev(x))>>],
                !.be = [k \in DOMAIN @ |-> [@[k] EXCEPT ![5] = own(<<t.be[k][1], t.be[k][2]>>)]],
                !.nb = [k \in DOMAIN els |-> [n \in DOMAIN @[k] |-> own(Rev(side(ElV(els[k]), n)))]]]
Faults(t) ==
  LET E == DOMAIN t.el B == DOMAIN t.be I == DOMAIN t.ie P == DOMAIN t.v
      revq(e) == LET n == Len(e) IN <<e[1], 0>> \o [k \in 1..n-2 |-> e[n+1-k]]
  IN    {<<"element lost", [t EXCEPT !.el = Drop(@, i), !.nb = Drop(@, i)]>> : i \in E}
   \cup {<<"element doubled", [t EXCEPT !.el = Append(@, t.el[i]), !.nb = Append(@, t.nb[i])]>> : i \in E}
   \cup {<<"element recoloured", [t EXCEPT !.el[i] = <<@[1] + 50>> \o Tail(@)]>> : i \in E}
   \cup {<<"element inverted", [t EXCEPT !.el[i] = revq(@)]>> : i \in E}
   \cup {<<"boundary edge lost", [t EXCEPT !.be = Drop(@, i)]>> : i \in B}
   \cup {<<"boundary edge doubled", [t EXCEPT !.be = Append(@, t.be[i])]>> : i \in B}
   \cup {<<"boundary edge re-marked", [t EXCEPT !.be[i][3] = @ + 50]>> : i \in B}
   \cup {<<"boundary edge reversed", [t EXCEPT !.be[i] = <<@[2], @[1]>> \o SubSeq(@, 3, 8)]>> : i \in B}
   \cup {<<"link lost", [t EXCEPT !.be[i][6] = 0]>> : i \in {j \in B : t.be[j][6] # 0}}
   \cup {<<"interior edge lost", [t EXCEPT !.ie = Drop(@, i)]>> : i \in I}
   \cup {<<"interior edge doubled", [t EXCEPT !.ie = Append(@, t.ie[i])]>> : i \in I}
   \cup {<<"edge without its element", [t EXCEPT !.ie[i][3] = -1]>> : i \in {j \in I : t.ie[j][3] # -1}}
   \cup {<<"vertex lost", [t EXCEPT !.v = Drop(@, i)]>> : i \in P}
   \cup {<<"vertex doubled", [t EXCEPT !.v = Append(@, t.v[i])]>> : i \in P}
   \cup {<<"boundary flag wrong", [t EXCEPT !.v[i][3] = 1 - @]>> : i \in P}
   \cup {<<"fixed flag wrong", [t EXCEPT !.v[i][2] = 1 - @]>> : i \in P}
   \cup {<<"layer flag wrong", [t EXCEPT !.v[i][4] = 1 - @]>> : i \in P}
   \cup {<<"neighbour wrong", [t EXCEPT !.nb[x[1]][x[2]] = IF @ = -1 THEN x[1] ELSE -1]>> : x \in UNION {{i} \X DOMAIN t.nb[i] : i \in E}}
   \cup {<<"free vertex moved", MovedTo(t, x[1], x[2])>> : x \in {y \in P \X Half : t.v[y[1]][3] = 0 /\ y[2] \notin V(t) /\ ValidMove(t, t.v[y[1]][1], y[2])}}
   \cup {<<"diagonal swapped", Swapped(t, x[1], x[2])>> : x \in {y \in E \X E : y[1] < y[2] /\ Swappable(t, y[1], y[2])}}
   \cup {<<"colour of the mesh", [t EXCEPT !.col = @ + 50]>>, <<"id of the mesh", [t EXCEPT !.id = @ + 50]>>}
\* what a call is free to do is no fault: the triangulation picks its triangles, new meshes and
\* refined ones may start with any flags on their new vertices, merging fixes the vertices of the
\* former interface, which makes their layer flag irrelevant
Choice(e, m, f) == /\ m = e.m
                   /\ CASE e.e = "Triangulate" -> f \in {"diagonal swapped", "free vertex moved"}
                        [] e.e \in {"New", "Refine"} -> f \in {"fixed flag wrong", "layer flag wrong"}
                        [] e.e = "Merge" -> f = "layer flag wrong"
                        [] OTHER -> FALSE
Undetected ==
  IF ev.e = "none" THEN {}
  ELSE LET X == Post e == Ev2 IN
       {<<x[1], x[2][1]>> : x \in {<<i, f>> \in UNION {{i} \X Faults(X[i]) : i \in DOMAIN X} : ~Choice(e, X[i].m, f[1]) /\ Verdict([X EXCEPT ![i] = f[2]], e) = {}}}
       \* (the completeness check judges a mesh by its own domain: not specified for merged meshes)
       \cup (IF ~(e.e = "Check" /\ Cardinality(ms[e.m].doms) > 1) /\ Verdict(X, [e EXCEPT !.ret = 1 - @]) = {} THEN {<<0, "ret">>} ELSE {})
       \cup {<<i, "lost">> : i \in {j \in DOMAIN X : Verdict(Drop(X, j), e) = {}}}
Sensitive == LET U == Undetected IN U = {} \/ (PrintT(<<"undetected", ev.e, U>>) /\ FALSE)
View == <<world, ms, run, IF ev.e = "none" THEN <<>> ELSE <<ev, pre>>, nref, calls>>
=============================================================================
