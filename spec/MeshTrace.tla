------------------------------ MODULE MeshTrace ------------------------------
(***************************************************************************)
(* Trace validation: every recorded session of the real library must be a   *)
(* behaviour of the specification.  TRACE names a file with one session per *)
(* line ([id, ev: sequence of logged calls]); PROP the property whose       *)
(* obligations decide acceptance ("ALL" for every property).                *)
(***************************************************************************)
EXTENDS MeshOps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES sid, l, W, D, fails
vars == <<sid, l, W, D, fails>>

Relevant(F) == IF Prop = "ALL" THEN F
               ELSE {t \in F : SubSeq(t, 1, 3) = Prop \/ SubSeq(t, 1, 3) = "ANY"}

Want(p) == Prop \in {p, "ALL"}
On(p, F) == IF Want(p) THEN F ELSE {}

\* the state invariants of the wanted properties
StateWanted(X, DD) ==
       On("C01", UNION {Conforming(X[i]) : i \in DOMAIN X})
  \cup On("C02", UNION {BoundaryFidelity(X[i], DD) : i \in DOMAIN X})
  \cup On("C04", UNION {FixedKept(X[i], DD) : i \in DOMAIN X})
  \cup On("C20", UNION {Derived(X[i]) : i \in DOMAIN X})
  \cup On("C10", UNION {Connectivity(X[i]) : i \in DOMAIN X})
  \cup On("C08", Interfaces(X))

Ev == Traces[sid].ev
NoDom == [d \in {} |-> 0]

Init == /\ sid \in DOMAIN Traces
        /\ l = 1
        /\ W = <<>>
        /\ D = NoDom
        /\ fails = {}

\* A call that crashed, hung or threw violates every property
Abort == /\ Ev[l].e = "Abort"
         /\ fails' = {"ANY.call-did-not-return"}
         /\ UNCHANGED <<W, D>>

EndOfSession == Ev[l].e = "End" /\ UNCHANGED <<W, D, fails>>

Call == /\ Ev[l].e \notin {"Abort", "End"}
        /\ LET ev == Ev[l]
               D2 == IF ev.e = "New" THEN (ev.arg :> ev.D) @@ D ELSE D
               X == ev.S
               F == Relevant(StateWanted(X, D2) \cup OpObs(W, X, ev, D2) \cup Frame(W, X, ev))
           IN /\ D' = D2
              /\ W' = X
              /\ fails' = F

Next == /\ l <= Len(Ev)
        /\ fails = {}
        /\ l' = l + 1
        /\ UNCHANGED sid
        /\ (Abort \/ EndOfSession \/ Call)
        /\ IF fails' # {} THEN PrintT(<<"FAIL", ToJson([id |-> Traces[sid].id, at |-> l, e |-> Ev[l].e, tags |-> SetToSeq(fails')])>>) ELSE TRUE

Spec == Init /\ [][Next]_vars

Accepted == fails = {}
\* every session is consumed to its last record, unless it was rejected
Consumed == (~ENABLED Next) => (fails # {} \/ l = Len(Ev) + 1)
View == <<sid, l, fails>>
=============================================================================
