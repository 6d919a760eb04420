-------------------------------- MODULE App ---------------------------------
(***************************************************************************)
(* The TQMesh application (C15): a parameter file is a sequence of mesh      *)
(* definitions; running the application on it must have exactly the effect   *)
(* of the library calls Calls(file) - one mesh after the other, each merged  *)
(* with the meshes before it, refined, smoothed, written and checked - and   *)
(* its exit status must tell whether every mesh was written and fills its    *)
(* domain.  A file with a mistake (fault) makes the run fail without a mesh  *)
(* file for the definition that contains it.                                 *)
(*                                                                           *)
(* definition = [size <<a,b,c>> (sixteenths: a + b x + c y), color (-1: not  *)
(*   given), alg, ref, smo, lay, fmt, ext: shape, slots: <<content>>,        *)
(*   fe (fixed edge between the fixed vertices), layers, order, fault]       *)
(* shape = [kind, ...] in lattice coordinates (see MkPoly)                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

Pick(S) == RandomElement(S)
Chance(k) == RandomElement(1 .. 100) <= k

\* ---------------------------------------------------------------- vocabulary
PolyKinds == {"coords", "edges", "csv"}
ShapeKinds == {"rect", "square", "circ", "tri"}

\* corner lists of the outer boundaries (mesh 0 lives in 0..16 x 0..16; mesh 1
\* to its right or in one of its holes; mesh 2 above)
Outline(n) ==
  CASE n = 1 -> << <<0,0>>, <<16,0>>, <<16,16>>, <<0,16>> >>
    [] n = 2 -> << <<0,0>>, <<16,0>>, <<16,9>>, <<9,9>>, <<9,16>>, <<0,16>> >>
    [] n = 3 -> << <<0,3>>, <<8,0>>, <<16,3>>, <<16,12>>, <<5,16>> >>
    [] n = 4 -> << <<16,0>>, <<24,0>>, <<24,16>>, <<16,16>> >>          \* right of 1
    [] n = 5 -> << <<0,16>>, <<16,16>>, <<16,24>>, <<8,27>>, <<0,24>> >> \* above 1
    [] n = 6 -> << <<24,0>>, <<32,4>>, <<32,12>>, <<24,16>> >>           \* right of 4
SlotPos(k) == CASE k = 1 -> <<4,4>> [] k = 2 -> <<12,4>> [] k = 3 -> <<4,12>> [] k = 4 -> <<12,12>> [] k = 5 -> <<8,6>>
SlotsOf(o) == CASE o = 1 -> {1, 2, 3, 4} [] o = 2 -> {1, 2, 3} [] o = 3 -> {1, 2} [] o = 9 -> {1, 2, 3, 4} [] o = 8 -> {5} [] OTHER -> {}
Around(k, r) == LET c == SlotPos(k) IN << <<c[1]-r, c[2]-r>>, <<c[1]+r, c[2]-r>>, <<c[1]+r, c[2]+r>>, <<c[1]-r, c[2]+r>> >>

Props(on) == IF on THEN << Pick({0, 0, 1, 2}), Pick({0, 1, 3}) >> ELSE <<0, 0>>

\* a polygonal shape: every corner with marker of its edge, size and range
MkPoly(kind, pts, sized) ==
  [kind |-> kind, p |-> [i \in DOMAIN pts |-> << pts[i][1], pts[i][2], Pick(1 .. 5) >> \o Props(sized /\ Chance(40))]]
\* a predefined shape: marker, centre, extents, optional size and range
MkShape(kind, c, w, h, n, sized) ==
  [kind |-> kind, m |-> Pick(1 .. 5), c |-> c, w |-> w, h |-> h, n |-> n, pr |-> Props(sized)]

\* ---------------------------------------------------------------- generation
VARIABLES defs, cur, stage
vars == <<defs, cur, stage>>

CONSTANT Faults
Blank == [ext |-> 0]

Init == defs = <<>> /\ cur = Blank /\ stage = 0

(* outer boundary and scalar parameters *)
Scalars(e, o) ==
  [ext |-> e, out |-> o, size |-> << Pick({24, 32, 40}), Pick({0, 0, 1, 2}), Pick({0, 0, 1}) >>,
   color |-> Pick({-1, 0, 1, 2, 7}), alg |-> Pick({"", "Triangulation", "Tri-to-Quad"}),
   ref |-> Pick({-1, 0, 1}), smo |-> Pick({-1, 0, 1, 4}), lay |-> Pick({-1, 0, 1}),
   fmt |-> Pick({"TXT", "TXT", "txt", "VTU", "vtu", "COUT"}), order |-> Pick(1 .. 100000), fault |-> "", fe |-> 0, spare |-> Chance(20),
   slots |-> <<>>, layers |-> <<>>]

First ==
  /\ stage = 0 /\ defs = <<>>
  /\ \E o \in {Pick({1, 1, 1, 2, 3, 7, 8, 9})}, k \in {Pick(PolyKinds)}, sz \in {Chance(40)} :
     cur' = Scalars(CASE o <= 3 -> MkPoly(k, Outline(o), sz)
                      [] o = 7 -> MkShape(Pick({"rect"}), <<8,8>>, 16, 14, 0, sz)
                      [] o = 8 -> MkShape("tri", <<8,8>>, 24, 0, 0, sz)
                      [] o = 9 -> IF Chance(50) THEN MkShape("circ", <<8,8>>, 9, 0, Pick({12, 16}), sz) ELSE MkShape("square", <<8,8>>, 16, 0, 0, sz),
                    o)
  /\ stage' = 1 /\ UNCHANGED defs

\* a further mesh: inside a hole of mesh 0 or beside the meshes so far
HoleSlots == {k \in DOMAIN defs[1].slots : defs[1].slots[k].what = "hole" /\ defs[1].slots[k].b.kind \in PolyKinds}
Taken == {defs[i].out : i \in DOMAIN defs}
Beside == IF defs[1].out # 1 THEN {} ELSE ({4, 5} \cup (IF 4 \in Taken THEN {6} ELSE {})) \ Taken
Places == {10 + k : k \in {j \in HoleSlots : 10 + j \notin Taken}} \cup Beside
More ==
  /\ stage = 0 /\ defs # <<>> /\ Len(defs) < 3 /\ defs[Len(defs)].fault = "" /\ Places # {}
  /\ \E o \in {Pick(Places)}, k \in {Pick(PolyKinds)}, sz \in {Chance(30)} :
     cur' = Scalars(IF o > 10 THEN MkPoly(k, [i \in 1 .. 4 |-> SubSeq(defs[1].slots[o - 10].b.p[i], 1, 2)], FALSE)
                    ELSE MkPoly(k, Outline(o), sz), o)
  /\ stage' = 1 /\ UNCHANGED defs

(* contents: holes and fixed vertices in the free slots, layers, fixed edge *)
Content(k) ==
  LET kd == Pick({"coords", "edges", "csv", "rect", "square", "circ", "tri"}) IN
  IF Chance(35) THEN [what |-> "hole", b |-> CASE kd \in PolyKinds -> MkPoly(kd, Around(k, 1), Chance(30))
                                               [] kd = "rect" -> MkShape("rect", SlotPos(k), 2, 3, 0, Chance(40))
                                               [] kd = "square" -> MkShape("square", SlotPos(k), 2, 0, 0, Chance(40))
                                               [] kd = "circ" -> MkShape("circ", SlotPos(k), 1, 0, Pick({5, 8}), Chance(40))
                                               [] OTHER -> MkShape("tri", SlotPos(k), 2, 0, 0, Chance(40))]
  ELSE IF Chance(30) THEN [what |-> "fixed", b |-> << SlotPos(k)[1], SlotPos(k)[2] >> \o Props(Chance(60))]
  ELSE [what |-> "", b |-> <<>>]
Fill ==
  /\ stage = 1
  /\ \E s \in {[k \in 1 .. (IF SlotsOf(cur.out) = {} THEN 0 ELSE Max(SlotsOf(cur.out))) |-> IF k \in SlotsOf(cur.out) THEN Content(k) ELSE [what |-> "", b |-> <<>>]]} :
     cur' = [cur EXCEPT !.slots = s]
  /\ stage' = 2 /\ UNCHANGED defs
Fixed(d) == {k \in DOMAIN d.slots : d.slots[k].what = "fixed"}
Corner(d, i) == << d.ext.p[i][1], d.ext.p[i][2] >>
LayerFor(d) ==
  IF d.ext.kind \notin PolyKinds THEN <<>>
  ELSE << Corner(d, 1) \o (IF Chance(60) THEN Corner(d, 1) ELSE Corner(d, 2)) \o << Pick(1 .. 2), Pick({4, 8}), Pick({16, 24}) >> >>
FaultsFor(d) == {"nosize", "noprefix", "noformat", "alg", "badexpr", "noend", "color"}
  \cup (IF d.fmt = "COUT" THEN {} ELSE {"badpath"})
  \cup (IF d.ext.kind = "coords" THEN {"negmarker", "noendbdry"} ELSE {})
  \cup (IF d.ext.kind = "edges" THEN {"index", "negindex"} ELSE {})
  \cup (IF d.ext.kind = "csv" THEN {"nofile"} ELSE {})
  \cup (IF d.layers # <<>> THEN {"shortlayer"} ELSE {})
  \cup (IF d.fe = 1 THEN {"feindex"} ELSE {})
Extras ==
  /\ stage = 2
  /\ \E l \in {IF Chance(35) THEN LayerFor(cur) ELSE <<>>}, f \in {IF Cardinality(Fixed(cur)) >= 2 /\ Chance(60) THEN 1 ELSE 0} :
     cur' = [cur EXCEPT !.layers = l, !.fe = f]
  /\ stage' = 3 /\ UNCHANGED defs
Seal ==
  /\ stage = 3
  /\ \E d \in {[cur EXCEPT !.fault = IF Faults /\ Chance(55) THEN Pick(FaultsFor(cur)) ELSE ""]} : defs' = Append(defs, d)
  /\ cur' = Blank /\ stage' = 0

\* ---------------------------------------------------------------- meaning
Default(x, d) == IF x = -1 THEN d ELSE x
Holes(d, kinds) == SelectSeq([k \in DOMAIN d.slots |-> d.slots[k]], LAMBDA s : s.what = "hole" /\ s.b.kind \in kinds)

\* vertices that the file declares for boundaries given by edges, in file order
EdgeShapes(d) == (IF d.ext.kind = "edges" THEN << d.ext >> ELSE <<>>)
                 \o [i \in DOMAIN Holes(d, {"edges"}) |-> Holes(d, {"edges"})[i].b]
Verts(d) == FlattenSeq([i \in DOMAIN EdgeShapes(d) |-> EdgeShapes(d)[i].p]) \o (IF d.spare THEN << <<3,3,1,0,0>> >> ELSE <<>>)
FirstIndex(d, i) == FoldFunction(+, 0, [j \in 1 .. i - 1 |-> Len(EdgeShapes(d)[j].p)])
FixedSeq(d) == LET s == SelectSeq([k \in DOMAIN d.slots |-> d.slots[k]], LAMBDA x : x.what = "fixed") IN [i \in DOMAIN s |-> s[i].b]

\* edges by vertex index; holes run clockwise
IndexEdges(d, i, hole) ==
  LET b == EdgeShapes(d)[i]  n == Len(b.p)  o == FirstIndex(d, i) IN
  IF hole THEN [k \in 1 .. n |-> << o + ((n - k + 1) % n), o + n - k, b.p[n - k + 1][3] >>]
  ELSE [k \in 1 .. n |-> << o + k - 1, o + (k % n), b.p[k][3] >>]

ShapeCalls(d, b) == IF b.kind \in PolyKinds THEN << << b.kind, b.p >> >> ELSE << << b.kind, b >> >>
ExtCalls(d) == << << "ext" >> >> \o (IF d.ext.kind = "edges" THEN << << "indexed", IndexEdges(d, 1, FALSE) >> >> ELSE ShapeCalls(d, d.ext))
HoleCalls(d) ==
  LET off == IF d.ext.kind = "edges" THEN 1 ELSE 0
      E == [i \in DOMAIN Holes(d, {"edges"}) |-> << << "int" >>, << "indexed", IndexEdges(d, i + off, TRUE) >> >>]
      O == FlattenSeq([j \in 1 .. 6 |-> LET H == Holes(d, {<< "coords", "rect", "circ", "square", "tri", "csv" >>[j]}) IN
             [i \in DOMAIN H |-> << << "int" >> >> \o ShapeCalls(d, H[i].b)]]) IN
  FlattenSeq(E) \o FlattenSeq(O)
FixedEdge(d) == << Len(Verts(d)), Len(Verts(d)) + 1 >>

MeshCalls(i, d) ==
     << << "domain", d.size >> >>
  \o [k \in DOMAIN Verts(d) |-> << "v", Verts(d)[k] >>]
  \o [k \in DOMAIN FixedSeq(d) |-> << "fv", FixedSeq(d)[k] >>]
  \o ExtCalls(d) \o HoleCalls(d)
  \o (IF d.fe = 1 THEN << << "fe", FixedEdge(d) >> >> ELSE <<>>)
  \o << << "mesh", << i - 1, Default(d.color, 0) >> >> >>
  \o [k \in DOMAIN d.layers |-> << "layer", d.layers[k] >>]
  \o << << "tri" >> >>
  \o (IF d.alg = "Tri-to-Quad" THEN << << "t2q" >> >> ELSE <<>>)
  \o (IF i > 1 THEN << << "merge" >> >> ELSE <<>>)
  \o [k \in 1 .. Default(d.ref, 0) |-> << "refine" >>]
  \o << << "smooth", << Default(d.smo, 2), Default(d.lay, 0) >> >>,
        << "write", << d.fmt, i - 1 >> >>, << "check" >> >>

Sound(ds) == SelectSeq(ds, LAMBDA d : d.fault = "")
Calls(ds) == FlattenSeq([i \in DOMAIN Sound(ds) |-> MeshCalls(i, ds[i])])

Markers(b) == IF b.kind \in PolyKinds THEN {b.p[k][3] : k \in DOMAIN b.p} ELSE {b.m}
MarkersOf(d) == Markers(d.ext) \cup UNION {IF d.slots[k].what = "hole" THEN Markers(d.slots[k].b) ELSE {} : k \in DOMAIN d.slots}

\* what the file demands of the k-th written mesh, independent of how it is computed
Demand(ds, k) ==
  [colors |-> SetToSeq({Default(ds[i].color, 0) : i \in 1 .. k}),
   quads |-> Default(ds[k].ref, 0) > 0,
   markers |-> SetToSeq(UNION {MarkersOf(ds[i]) : i \in 1 .. k})]

Finish ==
  /\ stage = 0 /\ defs # <<>> /\ (Len(defs) = 3 \/ defs[Len(defs)].fault # "" \/ Places = {} \/ Chance(50))
  /\ stage' = 9
  /\ PrintT(<<"HIST", ToJson([defs |-> defs, verts |-> [i \in DOMAIN defs |-> Verts(defs[i])],
                              idx |-> [i \in DOMAIN defs |-> [j \in DOMAIN EdgeShapes(defs[i]) |-> IndexEdges(defs[i], j, j > (IF defs[i].ext.kind = "edges" THEN 1 ELSE 0))]],
                              fe |-> [i \in DOMAIN defs |-> FixedEdge(defs[i])],
                              demand |-> [i \in DOMAIN Sound(defs) |-> Demand(defs, i)],
                              calls |-> Calls(defs)])>>)
  /\ UNCHANGED <<defs, cur>>

Next == First \/ More \/ Fill \/ Extras \/ Seal \/ Finish
Spec == Init /\ [][Next]_vars

\* sanity of the specification: one mesh, write and check call per sound definition, merges in between,
\* every fault ends the file
Count(cs, c) == Cardinality({i \in DOMAIN cs : cs[i][1] = c})
CallsOK == stage = 9 => LET cs == Calls(defs)  n == Len(Sound(defs)) IN
  /\ Count(cs, "mesh") = n /\ Count(cs, "write") = n /\ Count(cs, "check") = n
  /\ (n > 0 => Count(cs, "merge") = n - 1)
  /\ \A i \in 1 .. Len(defs) - 1 : defs[i].fault = ""
=============================================================================
