------------------------------ MODULE MeshCore ------------------------------
(***************************************************************************)
(* Abstract state of one TQMesh mesh and the state predicates that every   *)
(* reachable mesh has to satisfy.                                           *)
(*                                                                         *)
(* Points are integers: equal integers <=> equal coordinates.  A mesh is a  *)
(* record (the projection written by harness/mesh_h.cpp, or a state of the  *)
(* generative model MeshModel.tla)                                          *)
(*   v   : sequence of <<point, fixed, onBoundary, inQuadLayer, inDomain>>  *)
(*   el  : sequence of elements <<colour, sign, p1, p2, p3 [, p4]>>;        *)
(*         sign = 1 iff the element is a simple counter-clockwise polygon   *)
(*   ie  : sequence of interior edges <<a, b, leftElem, rightElem, ..>>     *)
(*   be  : sequence of boundary edges                                       *)
(*         <<a, b, marker, host, leftElem, twinMesh, twinA, twinB>>         *)
(*         host = 1000*domain + index of the declared edge it lies on       *)
(*   doms: the domains covered (more than one after merging)                *)
(* Predicates come as named obligations; the name's prefix is the property  *)
(* (properties.jsonl) it belongs to.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Ob(tag, ok) == IF ok THEN {} ELSE {tag}

ToSet1(q) == {q[i] : i \in DOMAIN q}
Last1(q) == q[Len(q)]

ElV(e)  == SubSeq(e, 3, Len(e))               \* corner cycle of an element
ElN(e)  == Len(e) - 2
Side(e, k) == <<e[k], IF k = Len(e) THEN e[3] ELSE e[k+1]>>
ElEdges(e) == {Side(e, k) : k \in 3..Len(e)}
Rev(d)  == <<d[2], d[1]>>
Und(d)  == IF d[1] < d[2] THEN d ELSE Rev(d)  \* undirected edge, normalised

V(s)    == {s.v[i][1] : i \in DOMAIN s.v}
FixedV(s) == {s.v[i][1] : i \in {j \in DOMAIN s.v : s.v[j][2] = 1}}
LayerV(s) == {s.v[i][1] : i \in {j \in DOMAIN s.v : s.v[j][4] = 1}}
El(s)   == ToSet1(s.el)
NQ(s)   == Cardinality({i \in DOMAIN s.el : Len(s.el[i]) = 6})
NT(s)   == Cardinality({i \in DOMAIN s.el : Len(s.el[i]) = 5})
NDir(s) == 4 * NQ(s) + 3 * NT(s)
Quads(s) == {i \in DOMAIN s.el : Len(s.el[i]) = 6}
Tris(s)  == {i \in DOMAIN s.el : Len(s.el[i]) = 5}
DirEdges(s, Q, T) == {Side(s.el[i], k) : i \in Q, k \in 3..6}
                \cup {Side(s.el[i], k) : i \in T, k \in 3..5}
DE(s)   == DirEdges(s, Quads(s), Tris(s))
BE(s)   == {<<s.be[i][1], s.be[i][2]>> : i \in DOMAIN s.be}
BEC(s)  == {<<s.be[i][1], s.be[i][2], s.be[i][3]>> : i \in DOMAIN s.be}
BET(s)  == {<<s.be[i][1], s.be[i][2], s.be[i][6]>> : i \in DOMAIN s.be}
IEU(s)  == {Und(<<s.ie[i][1], s.ie[i][2]>>) : i \in DOMAIN s.ie}
Used(s) == {s.el[i][k] : i \in Quads(s), k \in 3..6} \cup {s.el[i][k] : i \in Tris(s), k \in 3..5}

\* An element up to rotation of its corner cycle, with its colour
RotTo(q, k) == [i \in DOMAIN q |-> q[((i + k - 2) % Len(q)) + 1]]
Canon(e) == LET q == ElV(e)
                k == CHOOSE i \in DOMAIN q : \A j \in DOMAIN q : q[i] <= q[j]
            IN <<e[1]>> \o RotTo(q, k)
CanEl(s) == {Canon(s.el[i]) : i \in DOMAIN s.el}

\* Oriented region boundary (chain) of a set of directed edges
ChainOf(de) == {d \in de : Rev(d) \notin de}
Chain(s) == ChainOf(DE(s))
\* ... per element colour
Colours(s) == {s.el[i][1] : i \in DOMAIN s.el}
DEcol(s, c) == DirEdges(s, {j \in Quads(s) : s.el[j][1] = c}, {j \in Tris(s) : s.el[j][1] = c})

\* The mesh fills the region enclosed by its boundary edges
Complete(s) == Len(s.el) > 0 /\ Chain(s) = BE(s)

HasTwin(s) == \E i \in DOMAIN s.be : s.be[i][6] # 0

(***************************************************************************)
(* C01 - the elements form a conforming, positively oriented mesh           *)
(***************************************************************************)
Conforming(s) ==
  LET v  == V(s)
      de == DE(s)
      be == BE(s)
      ie == IEU(s)
      ub == {Und(d) : d \in be}
      comp == Len(s.el) > 0 /\ ChainOf(de) = be
  IN  UNION {
        Ob("C01.vertex-positions-distinct", Cardinality(v) = Len(s.v)),
        Ob("C01.element-orientation", \A i \in DOMAIN s.el : s.el[i][2] = 1),
        Ob("C01.element-corners", \A i \in DOMAIN s.el :
              /\ ToSet1(ElV(s.el[i])) \subseteq v
              /\ Cardinality(ToSet1(ElV(s.el[i]))) = ElN(s.el[i])),
        Ob("C01.each-side-used-once", Cardinality(de) = NDir(s)),
        Ob("C01.boundary-edges-distinct",
              Cardinality(be) = Len(s.be) /\ \A d \in be : d[1] \in v /\ d[2] \in v),
        Ob("C01.no-element-outside-boundary", \A d \in be : Rev(d) \notin de),
        Ob("C01.interior-edge-set",
              /\ Cardinality(ie) = Len(s.ie)
              /\ ie = {Und(d) : d \in de} \ ub),
        Ob("C01.vertices-inside-domain", \A i \in DOMAIN s.v : s.v[i][5] = 1),
        Ob("C01.no-hanging-nodes", comp => s.hang = 0),
        Ob("C01.no-overlap", comp => s.ovl = 0),
        Ob("C01.every-vertex-used", comp => v = Used(s)),
        Ob("C01.fills-domain", comp => s.full = 1)
      }

(***************************************************************************)
(* C20 - derived data of the mesh agrees with its elements                  *)
(***************************************************************************)
Derived(s) == UNION {
    Ob("C20.vertex-element-adjacency", s.adj = 1),
    Ob("C20.spatial-index", s.idx = 1),
    Ob("C20.cached-measures", s.met = 0),
    Ob("C20.boundary-flags", {s.v[i][1] : i \in {j \in DOMAIN s.v : s.v[j][3] = 1}} = UNION {{s.be[i][1], s.be[i][2]} : i \in DOMAIN s.be}),
    Ob("C20.vertex-edge-adjacency", s.eadj = 1),
    Ob("C20.element-counts", s.nq = NQ(s) /\ s.nt = NT(s)),
    Ob("C20.total-area", (Complete(s) /\ Len(s.doms) = 1) => s.areaok = 1) }

(***************************************************************************)
(* C02 - the boundary edges subdivide the declared boundary                 *)
(* D is the function  domain -> [edges: seq of <<a,b,marker>>, fv, fe]      *)
(***************************************************************************)
HostEdges(s, h) == {i \in DOMAIN s.be : s.be[i][4] = h}
IsPath(s, I, a, b) ==    \* the edges I form one directed path from a to b
  LET tails == {s.be[i][1] : i \in I}
      heads == {s.be[i][2] : i \in I}
  IN /\ I # {}
     /\ Cardinality(tails) = Cardinality(I)
     /\ Cardinality(heads) = Cardinality(I)
     /\ tails \ heads = {a}
     /\ heads \ tails = {b}

BoundaryFidelity(s, D) ==
  LET single == Len(s.doms) = 1
      d == s.doms[1]
      E == D[d].edges
  IN UNION {
     Ob("C02.boundary-on-domain", \A i \in DOMAIN s.be : s.be[i][4] # 0),
     Ob("C02.declared-edge-covered", single =>
          \A k \in DOMAIN E : IsPath(s, HostEdges(s, 1000*d + k), E[k][1], E[k][2])),
     Ob("C02.marker", single =>
          \A i \in DOMAIN s.be : (s.be[i][4] # 0 /\ s.be[i][6] = 0) =>
                s.be[i][3] = E[s.be[i][4] - 1000*d][3]) }

(***************************************************************************)
(* C04 - fixed points are vertices of the mesh                              *)
(***************************************************************************)
FixedKept(s, D) ==
  LET v == V(s) IN
  UNION { Ob("C04.fixed-point-kept",
             \A k \in DOMAIN s.doms : LET r == D[s.doms[k]] IN
                 /\ \A j \in DOMAIN r.fv : r.fv[j][1] \in v
                 /\ \A j \in DOMAIN r.fe : r.fe[j][1] \in v /\ r.fe[j][2] \in v),
          Ob("C04.fixed-point-used", Complete(s) =>
             LET u == Used(s) IN \A k \in DOMAIN s.doms : LET r == D[s.doms[k]] IN
                 \A j \in DOMAIN r.fv : r.fv[j][1] \in u) }

(***************************************************************************)
(* C08 - neighbouring meshes: W is the sequence of all meshes               *)
(***************************************************************************)
MeshIds(W) == {W[i].m : i \in DOMAIN W}
Get(W, m) == W[CHOOSE i \in DOMAIN W : W[i].m = m]

Interfaces(W) == UNION {
  Ob("C08.twin-valid", \A k \in DOMAIN W : \A i \in DOMAIN W[k].be :
       LET e == W[k].be[i] IN e[6] # 0 =>
          /\ e[6] \in MeshIds(W) \ {W[k].m}
          /\ e[7] = e[2] /\ e[8] = e[1]),
  Ob("C08.twin-mutual", \A k \in DOMAIN W : \A j \in DOMAIN W :
       {Rev(d) : d \in {<<e[1], e[2]>> : e \in {f \in ToSet1(W[k].be) : f[6] = W[j].m}}}
         = {<<e[1], e[2]>> : e \in {f \in ToSet1(W[j].be) : f[6] = W[k].m}}),
  Ob("C08.shared-edge-marker", \A k \in DOMAIN W : \A j \in DOMAIN W : k < j =>
       \A e \in ToSet1(W[k].be) : e[6] = W[j].m =>
            \A f \in ToSet1(W[j].be) : (f[1] = e[2] /\ f[2] = e[1]) => f[3] = e[3]),
  Ob("C08.contact-is-shared", \A k \in DOMAIN W : \A j \in DOMAIN W : k < j =>
       \A d \in BE(W[k]) : Rev(d) \in BE(W[j]) =>
            <<d[1], d[2], W[j].m>> \in BET(W[k])),
  Ob("C08.meshes-do-not-overlap", \A k \in DOMAIN W : W[k].xov = 0) }

(***************************************************************************)
(* C10 - element connectivity (after the mesh has been checked / exported)  *)
(***************************************************************************)
Connectivity(s) ==
  IF s.conn = 0 THEN {} ELSE
  LET de == DE(s)
      N == Len(s.el)
      own(f, d) == f \in 1..N /\ d \in ElEdges(s.el[f])
      sideOk(f, d) == IF d \in de THEN own(f, d) ELSE f = -1
      \* side i of a triangle / quad starts at corner i+1 (i = 1, 2, ..)
      side(e, i) == LET q == ElV(e) n == Len(q) IN
                    <<q[(i % n) + 1], q[((i + 1) % n) + 1]>>
  IN UNION {
     Ob("C10.interior-edge-elements", \A i \in DOMAIN s.ie : LET e == s.ie[i] IN
          sideOk(e[3], <<e[1], e[2]>>) /\ sideOk(e[4], <<e[2], e[1]>>)),
     Ob("C10.boundary-edge-element", \A i \in DOMAIN s.be : LET e == s.be[i] IN
          sideOk(e[5], <<e[1], e[2]>>)),
     Ob("C10.element-neighbours", \A f \in 1..N : \A i \in DOMAIN s.nb[f] :
          sideOk(s.nb[f][i], Rev(side(s.el[f], i)))) }

=============================================================================
