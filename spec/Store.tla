-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The spatial container (src/utils/Container.h, QuadTree.h): an ordered     *)
(* collection of items with positions, and the queries over it.  An item is  *)
(* <<id, x, y>>; coordinates are integers (lattice units).                   *)
(* As a model: Init/Next generate histories (printed in generation mode).    *)
(* As an oracle: Add/Rem/Move/Circ/.. define the outcome of every call, and   *)
(* StoreTrace.tla compares recorded calls of the real container with them.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* ------------------------------------------------------------ oracle
IdsOf(s) == {s[k][1] : k \in DOMAIN s}
Idx(s, id) == CHOOSE k \in DOMAIN s : s[k][1] = id
Add(s, id, x, y) == Append(s, <<id, x, y>>)
InsertBefore(s, id, x, y, q) ==          \* before the item q
  LET k == Idx(s, q) IN SubSeq(s, 1, k-1) \o <<<<id, x, y>>>> \o SubSeq(s, k, Len(s))
Rem(s, id) == LET k == Idx(s, id) IN SubSeq(s, 1, k-1) \o SubSeq(s, k+1, Len(s))
Move(s, id, x, y) == [s EXCEPT ![Idx(s, id)] = <<id, x, y>>]
D2(it, x, y) == (it[2]-x)*(it[2]-x) + (it[3]-y)*(it[3]-y)
Circ(s, x, y, r) == {s[k][1] : k \in {j \in DOMAIN s : D2(s[j], x, y) < r*r}}
Rect(s, x1, y1, x2, y2) == {s[k][1] : k \in {j \in DOMAIN s :
      x1 <= s[j][2] /\ s[j][2] <= x2 /\ y1 <= s[j][3] /\ s[j][3] <= y2}}
Nearest(s, x, y) == {s[k][1] : k \in {j \in DOMAIN s : \A i \in DOMAIN s : D2(s[j], x, y) <= D2(s[i], x, y)}}

\* ------------------------------------------------------------ model
CONSTANTS Xs, Ys,      \* lattice
          MaxOps, MaxItems, Gen

VARIABLES items, next, hist
vars == <<items, next, hist>>
Init == items = <<>> /\ next = 1 /\ hist = <<>>
\* simulation draws one value at random instead of branching over all
Pick(S) == IF Gen > 1 THEN {RandomElement(S)} ELSE S
Log(o) == hist' = Append(hist, o)
DoAdd == /\ Len(items) < MaxItems
         /\ \E x \in Pick(Xs), y \in Pick(Ys) :
              items' = Add(items, next, x, y) /\ Log(<<"add", next, x, y>>)
         /\ next' = next + 1
DoInsert == /\ Len(items) < MaxItems /\ Len(items) > 0 /\ Gen > 1
            /\ \E x \in Pick(Xs), y \in Pick(Ys), q \in Pick(IdsOf(items)) :
                 items' = InsertBefore(items, next, x, y, q) /\ Log(<<"ins", next, x, y, q>>)
            /\ next' = next + 1
DoRem == \E q \in IdsOf(items) : items' = Rem(items, q) /\ next' = next /\ Log(<<"rem", q>>)
\* removing an item that is not there any more must be refused
DoGhost == /\ Gen > 1 /\ next > 1
           /\ \E q \in (1..(next-1)) \ IdsOf(items) : items' = items /\ next' = next /\ Log(<<"rem", q>>)
DoMove == \E q \in IdsOf(items), x \in Pick(Xs), y \in Pick(Ys) :
            items' = Move(items, q, x, y) /\ next' = next /\ Log(<<"mov", q, x, y>>)
Emit == /\ Gen > 0 /\ Len(hist) = MaxOps
        /\ PrintT(<<"HIST", ToJson(hist)>>)
        /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED <<items, next>>
Next == \/ /\ Len(hist) < MaxOps
           /\ (DoAdd \/ DoInsert \/ DoRem \/ DoGhost \/ DoMove)
        \/ Emit
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ model invariants
Unique == Cardinality(IdsOf(items)) = Len(items)
Fresh  == \A q \in IdsOf(items) : q < next
Cover  == \A x \in Xs, y \in Ys :
            LET big == 1 + 2 * (CHOOSE m \in 0..1000 : \A a \in Xs : a <= m /\ -a <= m) IN
            /\ Circ(items, x, y, 4*big) = IdsOf(items)
            /\ (items # <<>>) => Nearest(items, x, y) # {}
            /\ \A q \in Nearest(items, x, y) : \A r \in 1..big :
                  (Circ(items, x, y, r) # {}) => q \in Circ(items, x, y, r)
=============================================================================
