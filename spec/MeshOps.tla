------------------------------- MODULE MeshOps -------------------------------
(***************************************************************************)
(* The operations of the library as relations between the meshes before     *)
(* (W) and after (X) one call.  W, X are sequences of mesh records, D the    *)
(* declared domains, ev the logged call [e, m, arg, ret, ...].  Every        *)
(* relation yields the set of violated obligations ({} = the step is         *)
(* allowed by the specification).                                            *)
(***************************************************************************)
EXTENDS MeshCore

\* ---------------------------------------------------------------- frame
Pairs(q) == [i \in DOMAIN q |-> <<q[i][1], q[i][2]>>]
Bd4(q)   == [i \in DOMAIN q |-> SubSeq(q[i], 1, 4)]
Tw(q)    == [i \in DOMAIN q |-> SubSeq(q[i], 6, 8)]
SameBody(s, t) == /\ s.v = t.v /\ s.el = t.el /\ Pairs(s.ie) = Pairs(t.ie)
                  /\ Bd4(s.be) = Bd4(t.be) /\ s.id = t.id /\ s.col = t.col
                  /\ s.doms = t.doms
\* the same mesh up to the order in which entities are stored
SameSets(s, t) == /\ V(s) = V(t) /\ CanEl(s) = CanEl(t) /\ BEC(s) = BEC(t)
                  /\ IEU(s) = IEU(t)
SameBoundary(s, t) == BEC(s) = BEC(t) /\ BET(s) = BET(t)

\* every mesh the call was not about is left alone (a new or merged
\* neighbour may only change which edges are known to be shared)
Frame(W, X, ev) ==
  LET touched == IF ev.e = "Merge" THEN {ev.m, ev.arg} ELSE {ev.m}
      others == MeshIds(W) \ touched
      linkOnly == ev.e \in {"New", "Merge"}
  IN UNION {
      Ob("C19.other-meshes-alive",
            /\ others \subseteq MeshIds(X)
            /\ MeshIds(X) \ MeshIds(W) \subseteq (IF ev.e = "New" THEN {ev.m} ELSE {})
            /\ ev.n = Len(X)),
      Ob("C19.identity-kept", (ev.e # "New" /\ ev.m \in MeshIds(W) /\ ev.m \in MeshIds(X)) =>
            LET s == Get(W, ev.m) t == Get(X, ev.m) IN s.id = t.id /\ s.col = t.col /\ (ev.e # "Merge" => s.doms = t.doms)),
      Ob("C04.fixed-flags-kept", (ev.e \in {"QuadLayer", "Triangulate", "Tri2Quad", "Refine", "Smooth"} /\ ev.m \in MeshIds(W) /\ ev.m \in MeshIds(X)) =>
            LET s == Get(W, ev.m) t == Get(X, ev.m) IN
            IF ev.e = "Refine" THEN FixedV(t) \cap V(s) = FixedV(s) ELSE FixedV(t) = FixedV(s)),
      Ob("C07.layer-flags-kept", (ev.e \in {"QuadLayer", "Triangulate", "Tri2Quad", "Refine"} /\ ev.m \in MeshIds(W) /\ ev.m \in MeshIds(X)) =>
            LET s == Get(W, ev.m) t == Get(X, ev.m) IN
            IF ev.e = "Refine" THEN LayerV(t) \cap V(s) = LayerV(s)
            ELSE IF ev.e = "QuadLayer" THEN LayerV(s) \subseteq LayerV(t)
            ELSE LayerV(t) = LayerV(s) \cap V(t)),
      Ob("C19.other-meshes-untouched",
            \A m \in others \cap MeshIds(X) :
               LET s == Get(W, m) t == Get(X, m) IN
               /\ SameBody(s, t)
               /\ (~linkOnly => Tw(s.be) = Tw(t.be))),
      Ob("C02.boundary-changed-by-operation",
            ev.e \in {"Triangulate", "Tri2Quad", "Smooth", "Check", "Write"} =>
               (ev.m \in MeshIds(W) /\ ev.m \in MeshIds(X) /\ SameBoundary(Get(W, ev.m), Get(X, ev.m)))) }

\* ---------------------------------------------------------------- creation
NewRel(W, X, ev, D) ==
  IF ev.m \notin MeshIds(X) THEN {"C02.mesh-created"} ELSE
  LET t == Get(X, ev.m) IN UNION {
    Ob("C02.mesh-created", ev.ret = 1 /\ Len(t.el) = 0 /\ Len(t.ie) = 0 /\ t.doms = <<ev.arg>>),
    Ob("C19.mesh-identity", t.id = ev.id /\ t.col = ev.col) }

\* ---------------------------------------------------------------- layers
QuadLayerRel(W, X, ev, D) ==
  LET s == Get(W, ev.m) t == Get(X, ev.m)
      new == CanEl(t) \ CanEl(s)
      sb == {<<b[1], b[2], b[3], b[6]>> : b \in {c \in ToSet1(s.be) : c[6] # 0}}
      tb == {<<b[1], b[2], b[3], b[6]>> : b \in {c \in ToSet1(t.be) : c[6] # 0}}
  IN UNION {
    Ob("C14.existing-elements-kept", CanEl(s) \subseteq CanEl(t)),
    Ob("C14.element-colour", \A c \in new : c[1] = t.col),
    Ob("C14.interfaces-kept", sb = tb),
    Ob("C14.success-means-elements", ev.ret = 1 => new # {}),
    \* thin layers on a plain domain, away from the corners (the harness measures, see LayPlain)
    Ob("C14.layer-height", (ev.lay[1] = 1 /\ ev.lay[2] > 0) => ev.lay[3] <= 50000),
    Ob("C14.layer-covers-path", (ev.lay[1] = 1 /\ ev.ret = 1) => ev.lay[5] = 0),
    Ob("C14.layer-stays-on-path", ev.lay[1] = 1 => ev.lay[7] = 0),
    Ob("C14.markers-kept",      \* every boundary edge keeps the marker of its host edge
       \A b \in ToSet1(t.be) : (b[4] # 0 /\ b[6] = 0) =>
           \E a \in ToSet1(s.be) : a[4] = b[4] /\ a[3] = b[3]) }

\* ---------------------------------------------------------------- triangulation
TriangulateRel(W, X, ev, D) ==
  LET s == Get(W, ev.m) t == Get(X, ev.m)
      new == CanEl(t) \ CanEl(s)
      n == Len(t.el) - Len(s.el)
      open == ~(BE(t) \subseteq DE(t))
  IN UNION {
    Ob("C03.success-means-complete", (ev.ret = 1 /\ ev.arg = 0) => Complete(t)),
    Ob("C03.complete-means-success", Complete(t) => ev.ret = 1),
    \* a single polygon without holes, fixed points and layers always has a further valid triangle
    Ob("C03.simple-domain-is-filled",
       (/\ ev.arg = 0 /\ Len(s.doms) = 1 /\ \A i \in DOMAIN s.el : Len(s.el[i]) = 5
        /\ D[s.doms[1]].rings = 1 /\ D[s.doms[1]].fv = <<>> /\ D[s.doms[1]].fe = <<>>) => ev.ret = 1),
    Ob("C03.complete-is-final", Complete(s) => (ev.ret = 1 /\ SameSets(s, t))),
    Ob("C03.limit-respected", ev.arg > 0 => n <= ev.arg),
    \* elements may be merged (clean-up) only when the whole boundary is meshed
    Ob("C03.limit-reached", ev.arg > 0 => /\ ((open /\ ev.ret = 1) => n = ev.arg)
                                          /\ (n = ev.arg => ev.ret = 1)),
    Ob("C03.elements-kept", open => CanEl(s) \subseteq CanEl(t)),
    Ob("C03.meshed-region-grows", t.ar >= s.ar - 2),
    Ob("C03.boundary-kept", SameBoundary(s, t)),
    Ob("C03.element-colour", \A c \in new : c[1] = t.col \/ c[1] \in Colours(s)) }

\* ---------------------------------------------------------------- tri -> quad
\* triangles of equal colour that share a side
TriOf(s, i) == Len(s.el[i]) = 5
Tri2QuadRel(W, X, ev, D) ==
  LET s == Get(W, ev.m) t == Get(X, ev.m)
      old == {Canon(s.el[i]) : i \in {j \in DOMAIN s.el : TriOf(s, j)}}
      keptT == {i \in DOMAIN t.el : TriOf(t, i) /\ Canon(t.el[i]) \in old}
      sides(c) == UNION {ElEdges(t.el[i]) : i \in {j \in keptT : t.el[j][1] = c}}
  IN UNION {
    Ob("C05.reports-success", ev.ret = 1),
    Ob("C05.no-new-vertices", V(t) \subseteq V(s)),
    Ob("C05.fixed-and-boundary-vertices-kept",
         /\ FixedV(s) \subseteq V(t)
         /\ \A d \in BE(s) : d[1] \in V(t)),
    Ob("C05.boundary-kept", SameBoundary(s, t)),
    Ob("C05.colour-regions-kept", Colours(s) = Colours(t) /\
         \A c \in Colours(s) : ChainOf(DEcol(s, c)) = ChainOf(DEcol(t, c))),
    Ob("C05.no-convertible-pair-left",
         \A c \in Colours(t) : LET z == sides(c) IN ~\E d \in z : Rev(d) \in z),
    Ob("C05.never-more-triangles", NT(t) <= NT(s) /\ Len(t.el) <= Len(s.el)),
    Ob("C05.completeness-kept", Complete(s) = Complete(t)) }

\* ---------------------------------------------------------------- refinement
\* Witnesses logged with the call (the relation below verifies them):
\*   ev.mids[k] = <<a, b, m>>: m is the post-vertex at the midpoint of the k-th
\*                edge (interior edges first, then boundary edges)
\*   ev.subs[i] = <<c, m1, .., mn>>: centre and side midpoints of element i
RefineRel(W, X, ev, D) ==
  LET s == Get(W, ev.m) t == Get(X, ev.m) IN
  IF HasTwin(s) THEN
    UNION { Ob("C06.interfaces-refuse", ev.ret = 0),
            Ob("C06.refusal-changes-nothing", SameBody(s, t) /\ Tw(s.be) = Tw(t.be)) }
  ELSE
  LET nI == Len(s.ie)  nB == Len(s.be)  N == Len(s.el)
      MT == {<<Und(<<x[1], x[2]>>), x[3]>> : x \in ToSet1(ev.mids)}
      mids == {x[3] : x \in ToSet1(ev.mids)}
      vs == V(s)  vt == V(t)
      cen == vt \ (vs \cup mids)            \* the new element centres
      post == CanEl(t)
      wf == /\ Len(ev.mids) = nI + nB /\ Len(ev.subs) = N
            /\ \A k \in 1..nI : ev.mids[k][1] = s.ie[k][1] /\ ev.mids[k][2] = s.ie[k][2]
            /\ \A k \in 1..nB : ev.mids[nI+k][1] = s.be[k][1] /\ ev.mids[nI+k][2] = s.be[k][2]
            /\ \A x \in ToSet1(ev.mids) : x[3] # 0
            /\ Cardinality(mids) = nI + nB
            /\ vs \subseteq vt /\ mids \subseteq vt /\ mids \cap vs = {}
      \* the n sub-quads of element e with centre/midpoints w = <<c, m1, .., mn>>
      subs(e, w) == LET q == ElV(e) n == Len(q) IN
         {Canon(<<e[1], 1, q[k], w[k+1], w[1], IF k = 1 THEN w[n+1] ELSE w[k]>>) : k \in 1..n}
      sideOk(e, w) == LET q == ElV(e) n == Len(q) IN
         \A k \in 1..n : <<Und(<<q[k], q[(k % n) + 1]>>), w[k+1]>> \in MT
  IN UNION {
    Ob("C06.reports-success", ev.ret = 1),
    Ob("C06.old-vertices-and-midpoints", wf),
    Ob("C06.vertex-count", Len(t.v) = Len(s.v) + nI + nB + N /\ Cardinality(cen) = N),
    Ob("C06.all-quads", NT(t) = 0 /\ Len(t.el) = 4 * NQ(s) + 3 * NT(s)),
    Ob("C06.exact-subdivision", wf =>
        \A i \in 1..N : LET e == s.el[i] w == ev.subs[i] IN
           Len(w) = ElN(e) + 1 /\ w[1] \in cen /\ sideOk(e, w) /\ subs(e, w) \subseteq post),
    Ob("C06.boundary-halved", wf =>
        BEC(t) = UNION {LET b == s.be[k] m == ev.mids[nI+k][3] IN
                        {<<b[1], m, b[3]>>, <<m, b[2], b[3]>>} : k \in 1..nB}),
    Ob("C06.completeness-kept", Complete(s) = Complete(t)) }

\* ---------------------------------------------------------------- smoothing
\* ev.mv[k] = <<position before, position after>> of the k-th vertex
SmoothRel(W, X, ev, D) ==
  LET s == Get(W, ev.m) t == Get(X, ev.m)
      n == Len(s.v)
      same == Len(t.v) = n /\ Len(ev.mv) = n /\
              \A i \in 1..n : s.v[i][1] = ev.mv[i][1] /\ t.v[i][1] = ev.mv[i][2]
      R == ToSet1(ev.mv)
      still(p) == <<p, p>> \in R
      to(p, q) == <<p, q>> \in R
  IN UNION {
    Ob("C07.reports-success", ev.ret = 1),
    Ob("C07.vertices-kept", same),
    IF ~same THEN {} ELSE UNION {
      Ob("C07.topology-kept", /\ Len(t.el) = Len(s.el)
                              /\ (\A i \in DOMAIN s.el :
                                      /\ Len(s.el[i]) = Len(t.el[i])
                                      /\ s.el[i][1] = t.el[i][1]
                                      /\ \A k \in 3..Len(s.el[i]) : to(s.el[i][k], t.el[i][k]))
                              /\ Len(t.ie) = Len(s.ie)
                              /\ (\A i \in DOMAIN s.ie : to(s.ie[i][1], t.ie[i][1]) /\ to(s.ie[i][2], t.ie[i][2]))),
      Ob("C07.boundary-vertices-still", \A d \in BE(s) : still(d[1]) /\ still(d[2])),
      Ob("C07.boundary-kept", SameBoundary(s, t)),
      Ob("C07.fixed-vertices-still", \A p \in FixedV(s) : still(p)),
      Ob("C07.layer-vertices-still", ev.arg = 0 =>
            \A i \in DOMAIN s.v : s.v[i][4] = 1 => still(s.v[i][1])),
      Ob("C07.layer-flags-kept", \A i \in DOMAIN s.v : s.v[i][4] = t.v[i][4]),
      Ob("C07.zero-iterations", ev.it = 0 => \A i \in DOMAIN s.v : still(s.v[i][1])),
      Ob("C07.elements-stay-valid", \A i \in DOMAIN s.el \cap DOMAIN t.el : s.el[i][2] = 1 => t.el[i][2] = 1),
      Ob("C07.completeness-kept", Complete(s) = Complete(t)) } }

\* ---------------------------------------------------------------- merging
MergeRel(W, X, ev, D) ==
  LET a == Get(W, ev.m) b == Get(W, ev.arg)
      sa == {i \in DOMAIN a.be : a.be[i][6] = ev.arg}
      sb == {i \in DOMAIN b.be : b.be[i][6] = ev.m}
      sided(s, I) == LET de == DE(s) IN \A i \in I : <<s.be[i][1], s.be[i][2]>> \in de
      mergeable == sa # {} /\ sided(a, sa) /\ sided(b, sb)
  IN UNION {
    Ob("C09.verdict", ev.ret = (IF mergeable THEN 1 ELSE 0)),
    IF ev.ret = 0 THEN
      Ob("C09.failure-changes-nothing", ev.arg \in MeshIds(X) /\ ev.m \in MeshIds(X) /\
          LET t == Get(X, ev.m) u == Get(X, ev.arg) IN
            SameBody(a, t) /\ SameBody(b, u) /\ Tw(a.be) = Tw(t.be) /\ Tw(b.be) = Tw(u.be))
    ELSE IF ev.arg \in MeshIds(X) \/ ev.m \notin MeshIds(X) THEN {"C09.donor-absorbed"}
    ELSE
      LET t == Get(X, ev.m)
          shared == {<<a.be[i][1], a.be[i][2]>> : i \in sa} \cup {<<b.be[i][1], b.be[i][2]>> : i \in sb}
          keep(s) == {x \in {<<s.be[i][1], s.be[i][2], s.be[i][3], s.be[i][6]>> : i \in DOMAIN s.be} : <<x[1], x[2]>> \notin shared}
      IN UNION {
        Ob("C09.elements-united", CanEl(t) = CanEl(a) \cup CanEl(b) /\ Len(t.el) = Len(a.el) + Len(b.el)),
        Ob("C09.vertices-united", V(t) = V(a) \cup V(b)),
        Ob("C09.boundary-united", {<<x[1], x[2], x[3], x[6]>> : x \in ToSet1(t.be)} = keep(a) \cup keep(b)),
        Ob("C09.fixed-flags-kept", \* the former interface must not move either
             FixedV(t) = FixedV(a) \cup FixedV(b) \cup UNION {{d[1], d[2]} : d \in shared}),
        Ob("C09.layer-flags-kept", \* away from the former interface, whose vertices are fixed from now on
             LET z == UNION {{d[1], d[2]} : d \in shared} IN LayerV(t) \ z = (LayerV(a) \cup LayerV(b)) \ z),
        Ob("C09.interfaces-of-third-meshes-follow",
             \A k \in DOMAIN X : X[k].m # ev.m =>
                LET o == Get(W, X[k].m) IN
                BET(X[k]) = {<<e[1], e[2], IF e[6] = ev.arg THEN ev.m ELSE e[6]>> : e \in ToSet1(o.be)}),
        Ob("C09.completeness-kept", (Complete(a) /\ Complete(b)) => Complete(t)),
        Ob("C09.identity-kept", t.id = a.id /\ t.col = a.col) } }

\* ---------------------------------------------------------------- verdicts
CheckRel(W, X, ev, D) ==
  LET s == Get(W, ev.m) t == Get(X, ev.m) IN UNION {
    Ob("C16.verdict", Len(s.doms) = 1 => (ev.ret = 1 <=> Complete(t))),
    Ob("C16.check-changes-nothing", SameBody(s, t) /\ Tw(s.be) = Tw(t.be)) }

\* f is the exported file, read back: same record shape as a mesh, plus the
\* interface rows itf <<a, b, own element, partner's element, its colour>> and
\* the advancing front fr <<a, b>>.  Element numbers are those of the file;
\* partner elements are numbered as in the partner's own export.
FileObs(f, s, X) ==
  LET de == DE(s)
      N == Len(f.el)
      open(d) == ~(d \in de)
      inner == {d \in de : Rev(d) \in de}
      side(g, d) == IF d \in de THEN g \in 1..N /\ d \in ElEdges(f.el[g]) ELSE g = -1
      twins == {b \in ToSet1(s.be) : b[6] # 0}
      part(b) == Get(X, b[6])
      nbside(b, g) == LET o == part(b) d == <<b[2], b[1]>> IN
          IF \E i \in DOMAIN o.el : d \in ElEdges(o.el[i])
          THEN g \in DOMAIN o.el /\ d \in ElEdges(o.el[g])
          ELSE g = -1
      nbcol(b, g, c) == g = -1 \/ (g \in DOMAIN part(b).el => c = part(b).el[g][1])
  IN UNION {
    Ob("C10.file-vertices", {f.v[i][1] : i \in DOMAIN f.v} = V(s) /\ Len(f.v) = Len(s.v)),
    Ob("C10.file-elements", CanEl(f) = CanEl(s) /\ Len(f.el) = Len(s.el)),
    Ob("C10.file-data", f.data = 1),
    IF f.conn = 0 THEN
      Ob("C10.file-vertex-flags",
          {<<x[1], x[2], x[4]>> : x \in ToSet1(f.v)} = {<<x[1], x[2], x[4]>> : x \in ToSet1(s.v)})
    ELSE UNION {
      Ob("C10.file-interior-edges",
          /\ {Und(<<e[1], e[2]>>) : e \in ToSet1(f.ie)} = {Und(d) : d \in inner}
          /\ 2 * Len(f.ie) = Cardinality(inner)),
      Ob("C10.file-boundary-edges",
          /\ {<<e[1], e[2], e[3]>> : e \in ToSet1(f.be)} = {e \in BEC(s) : <<e[1], e[2]>> \in de}
          /\ Len(f.be) = Cardinality(BE(s) \cap de)),
      Ob("C10.file-edge-elements",
          /\ \A i \in DOMAIN f.ie : side(f.ie[i][3], <<f.ie[i][1], f.ie[i][2]>>) /\ side(f.ie[i][4], <<f.ie[i][2], f.ie[i][1]>>)
          /\ \A i \in DOMAIN f.be : side(f.be[i][5], <<f.be[i][1], f.be[i][2]>>)),
      Ob("C10.file-neighbours", \A g \in 1..N : LET q == ElV(f.el[g]) n == Len(q) IN
          /\ Len(f.nb[g]) = n
          /\ \A i \in 1..n : side(f.nb[g][i], <<q[((i + 1) % n) + 1], q[(i % n) + 1]>>)),
      Ob("C10.file-front",
          /\ {Und(<<e[1], e[2]>>) : e \in ToSet1(f.fr)}
               = {Und(d) : d \in {x \in de : open(Rev(x)) /\ x \notin BE(s)} \cup {x \in BE(s) : open(x)}}
          /\ Cardinality({Und(<<e[1], e[2]>>) : e \in ToSet1(f.fr)}) = Len(f.fr)),
      Ob("C10.file-interfaces",
          /\ {<<e[1], e[2]>> : e \in ToSet1(f.itf)} = {<<b[1], b[2]>> : b \in twins}
          /\ Len(f.itf) = Cardinality(twins)
          /\ \A i \in DOMAIN f.itf : LET r == f.itf[i] IN
               /\ side(r[3], <<r[1], r[2]>>)
               /\ \A b \in twins : (b[1] = r[1] /\ b[2] = r[2] /\ b[6] \in MeshIds(X)) =>
                      nbside(b, r[4]) /\ nbcol(b, r[4], r[5])) } }

WriteRel(W, X, ev, D) ==
  LET s == Get(W, ev.m) t == Get(X, ev.m) IN UNION {
    Ob("C10.export-changes-nothing", SameBody(s, t) /\ Tw(s.be) = Tw(t.be)),
    Ob("C10.reports-success", ev.ret = ev.w /\ (ev.ret = 1 => ev.X.ok = 1)),
    IF ev.X.ok = 1 THEN FileObs(ev.X, s, X) ELSE {} }

\* ---------------------------------------------------------------- one call
OpObs(W, X, ev, D) ==
  IF ev.e = "New" THEN NewRel(W, X, ev, D)
  ELSE IF ev.m \notin MeshIds(W) \/ (ev.e # "Merge" /\ ev.m \notin MeshIds(X)) THEN {"C19.mesh-vanished"}
  ELSE CASE ev.e = "QuadLayer"   -> QuadLayerRel(W, X, ev, D)
         [] ev.e = "Triangulate" -> TriangulateRel(W, X, ev, D)
         [] ev.e = "Tri2Quad"    -> Tri2QuadRel(W, X, ev, D)
         [] ev.e = "Refine"      -> RefineRel(W, X, ev, D)
         [] ev.e = "Smooth"      -> SmoothRel(W, X, ev, D)
         [] ev.e = "Merge"       -> MergeRel(W, X, ev, D)
         [] ev.e = "Check"       -> CheckRel(W, X, ev, D)
         [] ev.e = "Write"       -> WriteRel(W, X, ev, D)
=============================================================================
