------------------------------ MODULE AppTrace -------------------------------
(***************************************************************************)
(* Validates runs of the real application (C15).  One trace per parameter    *)
(* file: [id, fault ("" if none), rc (exit status; -1: killed by a signal or *)
(* not finished), extra (files or printed meshes that nobody asked for),     *)
(* m: << per sound definition [app, twin: section -> digest of its contents  *)
(* ("" if the section is missing), ok (the domain is filled), want: Demand,  *)
(* colors, markers, tris: what the written mesh contains] >>]                *)
(* twin is what the library produced for the calls App!Calls(file).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k, alive, fails
vars == <<sid, k, alive, fails>>
T == Traces[sid]
Ob(tag, ok) == IF ok THEN {} ELSE {tag}

Init == sid \in DOMAIN Traces /\ k = 0 /\ alive = TRUE /\ fails = {}

\* the k-th mesh of the file has been written
MeshStep(m) ==
  fails' = Ob("C15.mesh-written", m.app # <<>>)
     \cup (IF m.app = <<>> THEN {} ELSE
           Ob("C15.as-the-library-calls", m.app = m.twin)
      \cup Ob("C15.colours-of-the-file", m.ok => Range(m.colors) \subseteq Range(m.want.colors))
      \cup Ob("C15.markers-of-the-file", m.ok => Range(m.markers) \subseteq Range(m.want.markers))
      \cup Ob("C15.only-quads-after-refinement", m.want.quads => m.tris = 0))

\* the end of the run
EndStep ==
  fails' = IF T.rc = -1 THEN {"C15.application-terminates-properly"}
           ELSE Ob("C15.exit-status-success", (T.rc = 0) => (T.fault = "" /\ \A i \in DOMAIN T.m : T.m[i].ok))
           \cup Ob("C15.exit-status-failure", (T.fault = "" /\ \A i \in DOMAIN T.m : T.m[i].ok) => T.rc = 0)
           \cup Ob("C15.nothing-else-written", T.extra = 0)

Next == /\ alive /\ fails = {}
        /\ k' = k + 1
        /\ UNCHANGED sid
        /\ IF k < Len(T.m) /\ T.rc # -1 THEN MeshStep(T.m[k + 1]) /\ alive' = TRUE
           ELSE EndStep /\ alive' = FALSE
        /\ IF fails' # {} THEN PrintT(<<"FAIL", ToJson([id |-> T.id, at |-> k + 1, e |-> IF T.fault = "" THEN "run" ELSE T.fault, tags |-> SetToSeq(fails')])>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
Accepted == fails = {}
=============================================================================
