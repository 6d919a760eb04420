------------------------------ MODULE ParaTrace ------------------------------
(***************************************************************************)
(* Validates recorded uses of the real parameter reader against Para (C22). *)
(* trace = [id, f: lines, ev: << [o: op, ret ("yes" "no" "error"),            *)
(*          v: all values, rows, fnd] >>]                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
VARIABLES sid, j, rd, fails, dead
tvars == <<sid, j, rd, fails, dead>>
P == INSTANCE Para WITH file <- <<>>, ops <- <<>>, phase <- 0, MaxBlocks <- 0, Faulty <- FALSE

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ob(tag, ok) == IF ok THEN {} ELSE {tag}
File == Traces[sid].f
Ev == Traces[sid].ev

Init == /\ sid \in DOMAIN Traces /\ j = 0 /\ fails = {} /\ dead = FALSE
        /\ rd = P!Start(<<>>)

Expect(res) == CASE res = "yes" -> "yes" [] res = "no" -> "no" [] OTHER -> "error"

Step(ev) ==
  LET x == IF ev.o[1] = "block" THEN P!DoBlock(File, rd) ELSE P!DoQuery(File, rd, ev.o[2]) IN
  /\ rd' = x.rd
  /\ dead' = (x.res \in {"bad", "odd"})
  /\ fails' =
       IF ev.ret = "crash" THEN {"C22.reader-does-not-crash"}
       ELSE Ob("C22.next-definition-found", (x.res = "yes") => ev.ret = "yes")
       \cup Ob("C22.nothing-invented", (x.res = "no") => ev.ret = "no")
       \cup Ob("C22.malformed-refused", (x.res = "bad") => ev.ret = "error")
       \cup (IF ev.o[1] = "q" /\ ev.ret = Expect(x.res) /\ x.res \in {"yes", "no"}
             THEN LET p == ev.o[2] IN
                  Ob("C22.found-flag", (ev.fnd = 1) = (p \in x.rd.fnd))
                  \cup (IF p \in x.rd.fnd THEN Ob("C22.values", ev.v = x.rd.val[p]) \cup Ob("C22.rows", ev.rows * P!Cols[p] = Len(x.rd.val[p])) ELSE {})
             ELSE {})

Next == /\ j < Len(Ev) /\ fails = {} /\ ~dead
        /\ j' = j + 1
        /\ UNCHANGED sid
        /\ Step(Ev[j + 1])
        /\ IF fails' # {} THEN PrintT(<<"FAIL", ToJson([id |-> Traces[sid].id, at |-> j + 1, e |-> Ev[j + 1].o, tags |-> SetToSeq(fails')])>>) ELSE TRUE
Spec == Init /\ [][Next]_tvars
Accepted == fails = {}
=============================================================================
