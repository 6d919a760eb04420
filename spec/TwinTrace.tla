------------------------------ MODULE TwinTrace ------------------------------
(***************************************************************************)
(* Reproducibility (C19): the same client A is run twice, once alone (solo)  *)
(* and once interleaved with an unrelated client B (both).  The combined     *)
(* run must be a refinement of the solo run: every call of A has the same    *)
(* outcome and leaves A's meshes in the same state, and calls of B are       *)
(* stuttering steps of A.                                                    *)
(*   event = [e, m, arg, ret, a (1: issued by A), st: mesh -> fingerprint]   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, i, j, st, fails
vars == <<sid, i, j, st, fails>>

Solo == Traces[sid].solo
Both == Traces[sid].both
Ob(tag, ok) == IF ok THEN {} ELSE {tag}

Init == sid \in DOMAIN Traces /\ i = 0 /\ j = 0 /\ st = <<>> /\ fails = {}

OwnStep(ev) ==
  /\ ev.a = 1
  /\ i' = i + 1
  /\ IF i + 1 > Len(Solo) THEN fails' = {"C19.reproducible-outcome"} /\ st' = st
     ELSE LET s == Solo[i + 1] IN
       /\ st' = ev.st
       /\ fails' = Ob("C19.reproducible-outcome", ev.e = s.e /\ ev.m = s.m /\ ev.arg = s.arg /\ ev.ret = s.ret)
              \cup Ob("C19.reproducible-result", ev.st = s.st)

ForeignStep(ev) ==
  /\ ev.a = 0
  /\ i' = i
  /\ st' = st
  /\ fails' = IF ev.e = "Abort" THEN {"ANY.call-did-not-return"}
              ELSE Ob("C19.foreign-call-stutters", ev.st = st)

Next == /\ j < Len(Both) /\ fails = {}
        /\ j' = j + 1
        /\ UNCHANGED sid
        /\ LET ev == Both[j + 1] IN OwnStep(ev) \/ ForeignStep(ev)
        /\ IF fails' # {} THEN PrintT(<<"FAIL", ToJson([id |-> Traces[sid].id, at |-> j + 1, e |-> Both[j + 1].e, tags |-> SetToSeq(fails')])>>) ELSE TRUE

Spec == Init /\ [][Next]_vars
Accepted == fails = {}
Consumed == (j = Len(Both) /\ fails = {}) => i = Len(Solo)
=============================================================================
