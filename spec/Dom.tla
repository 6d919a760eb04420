-------------------------------- MODULE Dom --------------------------------
(***************************************************************************)
(* Definition of a domain (src/algorithm/Domain.h, Boundary.h, EdgeList.h,    *)
(* EntityChecks.h): boundaries are built from shapes, files or single edges,  *)
(* edited and removed; area, extent, point location and validity follow.      *)
(* As a model: generates histories of definition calls.  As an oracle: the    *)
(* operators below give the outcome of every call (DomTrace.tla).             *)
(* Coordinates are integers; shapes are placed on multiples of 16.            *)
(***************************************************************************)
EXTENDS Poly, TLC, Json

\* ------------------------------------------------------------ oracle
\* a shape: sequence of <<x, y, colour, size, range>>; its edges in the given order
Pt(s, k) == <<s[k][1], s[k][2]>>
ShapeEdges(s) == {<<Pt(s, k), Pt(s, (k % Len(s)) + 1), s[k][3]>> : k \in DOMAIN s}
\* outer boundaries run counter-clockwise, inner ones clockwise
Oriented(t, E) == IF Area2(E) = 0 THEN {E, RevCurve(E)}
                  ELSE IF (t = 0) = (Area2(E) > 0) THEN {E} ELSE {RevCurve(E)}
OpenEdges(s) == ShapeEdges(s) \ {<<Pt(s, Len(s)), Pt(s, 1), s[Len(s)][3]>>}
SplitPoint(e, q) == <<(q*e[1][1] + (4-q)*e[2][1]) \div 4, (q*e[1][2] + (4-q)*e[2][2]) \div 4>>
Split(E, e, q) == LET m == SplitPoint(e, q) IN (E \ {e}) \cup {<<e[1], m, e[3]>>, <<m, e[2], e[3]>>}

\* boundaries must be nested properly: around a hole there is one outer boundary more than there are
\* holes, around an outer boundary as many (decided at the middle of the edges)
Dbl(E) == {<<<<2*e[1][1], 2*e[1][2]>>, <<2*e[2][1], 2*e[2][2]>>, e[3]>> : e \in E}
Mid2(e) == <<e[1][1]+e[2][1], e[1][2]+e[2][2]>>
Around(bs, j, p) == SumOver(LAMBDA k : IF k # j /\ Inside(Dbl(bs[k].ed), p) THEN 1 - 2*bs[k].t ELSE 0, DOMAIN bs)
Misplaced(bs) == \E j \in DOMAIN bs : \E e \in bs[j].ed : Around(bs, j, Mid2(e)) # bs[j].t
Bad(bs) ==        \* must be refused
  \/ Len(bs) = 0
  \/ \A k \in DOMAIN bs : bs[k].t = 1
  \/ \E k \in DOMAIN bs : ~Closed(bs[k].ed)
  \/ \E k \in DOMAIN bs : \E e \in bs[k].ed, f \in bs[k].ed :
        e # f /\ ~Adjacent(e, f) /\ Touching(e[1], e[2], f[1], f[2])
  \/ \E j \in DOMAIN bs, k \in DOMAIN bs : j < k /\
        \E e \in bs[j].ed, f \in bs[k].ed : Touching(e[1], e[2], f[1], f[2])
  \/ Misplaced(bs)
  \/ \E k \in DOMAIN bs : Closed(bs[k].ed) /\ Area2(bs[k].ed) * (IF bs[k].t = 0 THEN 1 ELSE -1) < 0   \* wrong orientation
Same(e, f) == {e[1], e[2]} = {f[1], f[2]}
\* degenerate definitions about which nothing is said: an edge folded back onto its neighbour or a doubled edge
Odd(bs) ==
  \/ \E k \in DOMAIN bs : \E e \in bs[k].ed, f \in bs[k].ed :
        e # f /\ Adjacent(e, f) /\ (Touching(e[1], e[2], f[1], f[2]) \/ Same(e, f))
  \/ \E j \in DOMAIN bs, k \in DOMAIN bs : j < k /\ \E e \in bs[j].ed, f \in bs[k].ed : Same(e, f)
Good(bs) == ~Bad(bs) /\ ~Odd(bs)
\* the area of the regular polygon with n corners on the unit circle, in thousandths (n/2 sin(2 pi/n))
RegularArea == <<0, 0, 1299, 2000, 2378, 2598, 2736, 2828, 2893, 2939, 2974, 3000, 3021, 3037, 3051, 3061, 3071, 3078, 3085, 3090,
                 3095, 3099, 3103, 3106, 3109, 3111, 3113, 3115, 3117, 3119, 3120, 3121>>
Points(bs) == UNION {Starts(bs[k].ed) \cup Ends(bs[k].ed) : k \in DOMAIN bs}
InDomain(bs, p) == \A k \in DOMAIN bs : Inside(bs[k].ed, p) = (bs[k].t = 0)
OnSome(bs, p) == \E k \in DOMAIN bs : OnCurve(bs[k].ed, p)

\* ------------------------------------------------------------ model (history generation)
CONSTANTS N, MaxOps, Gen
Lat == {<<16*x, 16*y>> : x \in 0..N, y \in 0..N}
VARIABLES bs, hist
vars == <<bs, hist>>
Init == bs = <<>> /\ hist = <<>>
R(S) == RandomElement(S)
Cell == {<<x, y>> \in (0..N) \X (0..N) : TRUE}
\* a random sequence of n distinct lattice points with colours and sizes
RECURSIVE Draw(_, _)
Draw(n, S) == IF n = 0 THEN <<>> ELSE LET D == {<<p>> \o Draw(n-1, S \ {p}) : p \in {R(S)}} IN CHOOSE d \in D : TRUE
Deco(p) == <<16*p[1], 16*p[2], R(1..6), R({0, 1, 3}), R({0, 2, 12, 30})>>
RandShape(n, S) == CHOOSE q \in {[k \in DOMAIN d |-> Deco(d[k])] : d \in {Draw(n, S)}} : TRUE
\* star-shaped rings around the centre, so that simple polygons are frequent
Ring == << <<0,0>>, <<1,0>>, <<2,0>>, <<3,1>>, <<4,0>>, <<5,1>>, <<6,0>>, <<6,2>>, <<5,3>>, <<6,4>>, <<6,6>>, <<4,5>>, <<3,6>>, <<2,5>>, <<0,6>>, <<1,4>>, <<0,3>>, <<1,2>> >>
RECURSIVE SubSeqOf(_)
SubSeqOf(q) == IF q = <<>> THEN <<>> ELSE (IF R(1..3) = 1 THEN <<>> ELSE <<q[1]>>) \o SubSeqOf(SubSeq(q, 2, Len(q)))
Rev(q) == [k \in DOMAIN q |-> q[Len(q)+1-k]]
RingShape == CHOOSE q \in {[k \in DOMAIN f |-> Deco(f[k])] : f \in {IF R(1..2) = 1 THEN Rev(g) ELSE g : g \in {SubSeqOf(Ring)}}} : TRUE
InnerCells == {<<x, y>> \in (2..4) \X (2..4) : TRUE}
AShape(t) == LET k == R(1..4) IN
             IF Gen = 3 THEN (IF t = 1 THEN RandShape(3, InnerCells) ELSE RingShape)     \* mostly valid domains
             ELSE IF t = 1 THEN (IF k = 1 THEN RandShape(R(3..5), Cell) ELSE RandShape(R(3..4), InnerCells))
             ELSE IF k = 1 THEN RandShape(R(3..6), Cell) ELSE IF k = 2 THEN RandShape(R(3..4), Cell) ELSE RingShape
Log(o) == hist' = Append(hist, o)
Free == {k \in DOMAIN bs : bs[k].ed = {}}
Used == {k \in DOMAIN bs : bs[k].ed # {}}
One(S) == {R(S)}     \* bound with \E so that the drawn value is used consistently
DoBdry == /\ Len(bs) < 3
          /\ \E w \in One(IF Gen = 3 THEN 2..5 ELSE 1..5) :
             LET t == IF (Len(bs) = 0) = (w = 1) THEN 1 ELSE IF Len(bs) > 0 /\ w = 1 THEN 0 ELSE IF Len(bs) = 0 THEN 0 ELSE 1 IN
             bs' = Append(bs, [t |-> t, ed |-> {}]) /\ Log(<<"bdry", t>>)
DoShape == /\ Free # {}
           /\ \E k \in One(Free), w \in One(1..8) : \E sh \in {AShape(bs[k].t)} :
              LET how == IF Gen = 3 THEN "shape" ELSE IF w = 1 THEN "open" ELSE IF w <= 3 THEN "edges" ELSE IF w <= 5 THEN "csv" ELSE "shape" IN
              /\ Len(sh) >= 3 /\ (Area2(ShapeEdges(sh)) # 0 \/ how \in {"edges", "open"})
              /\ bs' = [bs EXCEPT ![k].ed = IF how = "open" THEN OpenEdges(sh) ELSE IF how = "edges" THEN ShapeEdges(sh)
                                            ELSE CHOOSE E \in Oriented(bs[k].t, ShapeEdges(sh)) : TRUE]
              /\ Log(<<how, k, sh>>)
DoRect == /\ Free # {} /\ (Gen = 3 => \E k \in Free : k = 1)
          /\ \E k \in One(Free), x \in One(1..5), y \in One(1..5), w \in One(1..4), h \in One(1..4), c \in One(1..6), s \in One({0, 1}), m \in One(1..3) :
             LET hw == IF m = 3 THEN h ELSE w
                 A(dx, dy) == <<16*x + dx*8*hw, 16*y + dy*8*h, c, s, 0>>
                 sh == IF m = 2 THEN << <<16*x+16*w, 16*y, c, s, 0>>, <<16*x, 16*y+16*w, c, s, 0>>, <<16*x-16*w, 16*y, c, s, 0>>, <<16*x, 16*y-16*w, c, s, 0>> >>
                       ELSE << A(-1, -1), A(1, -1), A(1, 1), A(-1, 1) >> IN
             /\ bs' = [bs EXCEPT ![k].ed = CHOOSE E \in Oriented(bs[k].t, ShapeEdges(sh)) : TRUE]
             /\ Log(<<(IF m = 1 THEN "rect" ELSE IF m = 2 THEN "circle" ELSE "square"), k, sh, 16*x, 16*y, 16*hw, 16*h, IF m = 2 THEN 16*w ELSE 0>>)
DoSplit == /\ Used # {}
           /\ \E k \in One(Used), q \in One(1..3) : \E e \in One(bs[k].ed) :
              /\ \A i \in 1..2 : (e[2][i] - e[1][i]) % 4 = 0
              /\ SplitPoint(e, q) \notin Points(bs)
              /\ bs' = [bs EXCEPT ![k].ed = Split(@, e, q)] /\ Log(<<"split", k, e[1], e[2], q>>)
DoCut == /\ Used # {} /\ R(1..4) = 1 /\ Gen # 3
         /\ \E k \in One(Used) : \E e \in One(bs[k].ed) :
            bs' = [bs EXCEPT ![k].ed = @ \ {e}] /\ Log(<<"cut", k, e[1], e[2]>>)
DoRemove == /\ Len(bs) > 1 /\ R(1..3) = 1
            /\ \E k \in One(DOMAIN bs) :
               bs' = SubSeq(bs, 1, k-1) \o SubSeq(bs, k+1, Len(bs)) /\ Log(<<"rmb", k>>)
DoBadCsv == /\ Free # {} /\ R(1..3) = 1
            /\ \E k \in One(Free), w \in One(1..12) : bs' = bs /\ Log(<<"badcsv", k, w>>)
DoFix == R(1..3) = 1 /\ \E p \in One(Cell), s \in One({0, 1, 2, 5}), r \in One({0, 3, 9, 24}) : bs' = bs /\ Log(<<"fix", 16*p[1]+5, 16*p[2]-3, s, r>>)
\* built-in shapes on their own: kind (0 circle, 1 triangle, 2 rectangle, 3 square), type of boundary, centre,
\* number of edges, radius / width, height, colour, mesh size and range
DoNgon == /\ Gen # 3
          /\ \E kd \in One(0..3), t \in One(0..1), x \in One(-40..40), y \in One(-40..40), n \in One(1..32), w \in One(1..64), h \in One(1..64),
                c \in One(1..9), s \in One({0, 1, 3, 7}), r \in One({0, 2, 5}) :
               bs' = bs /\ Log(<<"ngon", kd, t, x, y, n, w, h, c, s, r>>)
Finish == /\ Len(hist) = MaxOps /\ PrintT(<<"HIST", ToJson(hist)>>) /\ hist' = Append(hist, <<"end">>) /\ bs' = bs
Next == \/ /\ Len(hist) < MaxOps
           /\ (DoBdry \/ DoShape \/ DoShape \/ DoShape \/ DoRect \/ DoSplit \/ DoCut \/ DoRemove \/ DoFix \/ DoBadCsv \/ DoNgon)
        \/ Finish
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ exhaustive model of small polygons
\* all polygons over N+1 x N+1 points with MaxOps corners; the laws the oracle itself must satisfy
PInit == /\ hist = <<>> /\ \E f \in [1..MaxOps -> Cell] :
            /\ \A i, j \in 1..MaxOps : i < j => f[i] # f[j]
            /\ \E t \in 0..1 : bs = <<[t |-> t, ed |-> ShapeEdges([k \in 1..MaxOps |-> <<f[k][1], f[k][2], k, 0, 0>>])]>>
PEmit == /\ Gen = 1 /\ hist = <<>> /\ hist' = <<"x">> /\ bs' = bs
         /\ PrintT(<<"POLY", ToJson([t |-> bs[1].t, s |-> [k \in 1..MaxOps |-> CHOOSE e \in bs[1].ed : e[3] = k]])>>)
PSpec == PInit /\ [][PEmit]_vars
Laws ==
  LET E == bs[1].ed IN
  /\ Closed(E) /\ Area2(RevCurve(E)) = -Area2(E)
  /\ \A F \in Oriented(bs[1].t, E) : Area2(F) * (IF bs[1].t = 0 THEN 1 ELSE -1) >= 0
  \* point location does not depend on the direction of the curve nor on the coordinate axes
  /\ \A p \in Cell : ~OnCurve(E, p) => Inside(E, p) = Inside({<<<<e[1][2], e[1][1]>>, <<e[2][2], e[2][1]>>, e[3]>> : e \in E}, <<p[2], p[1]>>)
  \* crossing is symmetric
  /\ \A e \in E, f \in E : Touching(e[1], e[2], f[1], f[2]) = Touching(f[2], f[1], e[1], e[2])
  \* a simple polygon over the lattice obeys Pick's theorem
  /\ Good(<<[t |-> 0, ed |-> E]>>) /\ Area2(E) # 0 =>
        LET on == {p \in Cell : OnCurve(E, p)} inn == {p \in Cell : ~OnCurve(E, p) /\ Inside(E, p)}
            a == IF Area2(E) > 0 THEN Area2(E) ELSE -Area2(E) IN
        a = 2*Cardinality(inn) + Cardinality(on) - 2
=============================================================================
