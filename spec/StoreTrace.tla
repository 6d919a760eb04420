------------------------------ MODULE StoreTrace ------------------------------
(***************************************************************************)
(* Validates recorded histories of the real container against Store.tla.     *)
(* TRACE: one history per line, [id, ev]; an event is a sequence             *)
(*   <<"add", id, x, y, ret>>, <<"ins", id, x, y, before, ret>>,              *)
(*   <<"rem", id, ret>>, <<"mov", id, x, y, ret>>,                            *)
(*   <<"circ", x, y, r, ids>>, <<"rect", x1, y1, x2, y2, ids>>,               *)
(*   <<"near", x, y, id>>, <<"all", n, treeSize, seq of <<id,x,y>> >>,        *)
(*   <<"abort">>                                                              *)
(***************************************************************************)
EXTENDS Store, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, fails
tvars == <<items, next, hist, sid, l, fails>>
Ev == Traces[sid].ev
Ob(t, ok) == IF ok THEN {} ELSE {t}
SetOf(q) == {q[k] : k \in DOMAIN q}
NoDup(q) == Cardinality(SetOf(q)) = Len(q)

TInit == sid \in DOMAIN Traces /\ l = 1 /\ fails = {} /\ items = <<>> /\ next = 1 /\ hist = <<>>
Step(e) ==
  CASE e[1] = "add" -> items' = Add(items, e[2], e[3], e[4]) /\ fails' = Ob("C11.add", e[5] = 1)
    [] e[1] = "ins" -> items' = InsertBefore(items, e[2], e[3], e[4], e[5]) /\ fails' = Ob("C11.add", e[6] = 1)
    [] e[1] = "rem" -> IF e[2] \in IdsOf(items)
                       THEN items' = Rem(items, e[2]) /\ fails' = Ob("C11.remove", e[3] = 1)
                       ELSE items' = items /\ fails' = Ob("C11.remove-unknown", e[3] = 0)
    [] e[1] = "mov" -> items' = Move(items, e[2], e[3], e[4]) /\ fails' = Ob("C11.move", e[5] = 1)
    [] e[1] = "circ" -> items' = items /\ fails' = Ob("C11.circle-query", NoDup(e[5]) /\ SetOf(e[5]) = Circ(items, e[2], e[3], e[4]))
    [] e[1] = "rect" -> items' = items /\ fails' = Ob("C11.rectangle-query", NoDup(e[6]) /\ SetOf(e[6]) = Rect(items, e[2], e[3], e[4], e[5]))
    \* queries with a caller-supplied predicate (here: even ids)
    [] e[1] = "circf" -> items' = items /\ fails' = Ob("C11.filtered-query", NoDup(e[5]) /\ SetOf(e[5]) = {q \in Circ(items, e[2], e[3], e[4]) : q % 2 = 0})
    [] e[1] = "rectf" -> items' = items /\ fails' = Ob("C11.filtered-query", NoDup(e[6]) /\ SetOf(e[6]) = {q \in Rect(items, e[2], e[3], e[4], e[5]) : q % 2 = 0})
    [] e[1] = "near" -> items' = items /\ fails' = Ob("C11.nearest", IF items = <<>> THEN e[4] = 0 ELSE e[4] \in Nearest(items, e[2], e[3]))
    [] e[1] = "all" -> items' = items /\ fails' = Ob("C11.contents", e[4] = items /\ e[2] = Len(items))
                                              \cup Ob("C11.tree-size", e[3] = Len(items))
    [] e[1] = "abort" -> items' = items /\ fails' = {"C11.call-did-not-return"}
TNext == /\ l <= Len(Ev) /\ fails = {}
         /\ l' = l + 1 /\ UNCHANGED <<sid, next, hist>>
         /\ Step(Ev[l])
         /\ IF fails' # {} THEN PrintT(<<"FAIL", ToJson([id |-> Traces[sid].id, at |-> l, e |-> Ev[l], tags |-> SetToSeq(fails')])>>) ELSE TRUE
TSpec == TInit /\ [][TNext]_tvars
Accepted == fails = {}
View == <<sid, l, fails>>
=============================================================================
