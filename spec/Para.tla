-------------------------------- MODULE Para --------------------------------
(***************************************************************************)
(* The parameter file reader (C22).  A parameter file is a sequence of       *)
(* lines; a reader is a set of parameters, each with a cursor: every query   *)
(* looks for the next definition behind the previous one, inside the current *)
(* block for the parameters of a block, in the whole file for the others.    *)
(*                                                                           *)
(*  line = [k: kind, p: parameter, v: tokens, c: trailing comment, s: style] *)
(*    k in "blank" "comment" "bs" "be" (block start / end) "par" (scalar or  *)
(*    vector) "ms" "row" "me" (matrix)                                       *)
(*  a token is an integer, JUNK (not a number) or NONE (nothing between two  *)
(*  commas).  c and s only matter for the text, not for the meaning.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

JUNK == 9999
NONE == 9998
DFLT  == 4444       \* the default value handed to queries that take one

\* the parameters of the reader under study
Kind == [n |-> "scalar", d |-> "scalar", w |-> "scalar", f |-> "scalar", t |-> "scalar",
         v |-> "vector", u |-> "vector", m |-> "matrix", r |-> "matrix"]
Cols == [n |-> 1, d |-> 1, w |-> 1, f |-> 1, t |-> 1, v |-> 3, u |-> 3, m |-> 2, r |-> 3]
UseDefault == {"u", "r"}
Params == DOMAIN Kind
TopLevel == {"t"}
InBlock == Params \ TopLevel

Good(x) == x \notin {JUNK, NONE}

\* --- meaning of the tokens --------------------------------------------------
Keep(toks) == SelectSeq(toks, Good)
Pad(toks, n) == [i \in 1 .. (IF Len(toks) > n THEN Len(toks) ELSE n) |-> IF i <= Len(toks) /\ Good(toks[i]) THEN toks[i] ELSE DFLT]
RowOf(p, toks) == IF p \in UseDefault THEN SubSeq(Pad(toks, Cols[p]), 1, Cols[p]) ELSE Keep(toks)

\* value of a definition: [ok, v (row by row)]
Scalar(p, toks) == IF toks # <<>> /\ Good(toks[1]) THEN [ok |-> TRUE, v |-> <<toks[1]>>] ELSE [ok |-> FALSE, v |-> <<>>]
Vector(p, toks) ==
  LET x == RowOf(p, toks) IN
  IF Len(x) < Cols[p] THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> SubSeq(x, 1, Cols[p])]
Matrix(p, rows) ==
  LET x == FlattenSeq([i \in DOMAIN rows |-> RowOf(p, rows[i])]) IN
  IF Len(x) % Cols[p] # 0 THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> x]

\* --- where things are ---------------------------------------------------------
\* first line of the file at or behind a, before b, for which P holds; 0: none
First(f, a, b, P(_)) == LET S == {i \in a .. b - 1 : P(f[i])} IN IF S = {} THEN 0 ELSE Min(S)

(* result of a query of parameter p with cursor cur in the lines a .. b-1:
   res: "no" (nothing there), "bad" (a definition that cannot be read), "yes";
   next: the cursor afterwards *)
Query(f, p, cur, b) ==
  IF Kind[p] # "matrix"
  THEN LET i == First(f, cur, b, LAMBDA l : l.k = "par" /\ l.p = p) IN
       IF i = 0 THEN [res |-> "no", v |-> <<>>, next |-> cur]
       ELSE LET x == IF Kind[p] = "scalar" THEN Scalar(p, f[i].v) ELSE Vector(p, f[i].v) IN
            [res |-> IF x.ok THEN "yes" ELSE "bad", v |-> x.v, next |-> i + 1]
  ELSE LET i == First(f, cur, b, LAMBDA l : l.k = "ms" /\ l.p = p) IN
       IF i = 0 THEN [res |-> "no", v |-> <<>>, next |-> cur]
       ELSE LET e == First(f, i + 1, b, LAMBDA l : l.k = "me" /\ l.p = p) IN
            IF e = 0 THEN [res |-> "bad", v |-> <<>>, next |-> i + 1]
            ELSE IF \E k \in i + 1 .. e - 1 : f[k].k \notin {"row", "blank", "comment"}
            THEN [res |-> "odd", v |-> <<>>, next |-> e + 1]     \* other definitions in between: not specified
            ELSE LET R == SelectSeq(SubSeq(f, i + 1, e - 1), LAMBDA l : l.k = "row")
                     x == Matrix(p, [k \in DOMAIN R |-> R[k].v]) IN
                 [res |-> IF x.ok THEN "yes" ELSE "bad", v |-> x.v, next |-> e + 1]

(* the next block behind line pos *)
NextBlock(f, pos) ==
  LET s == First(f, pos, Len(f) + 1, LAMBDA l : l.k = "bs") IN
  IF s = 0 THEN [res |-> "no", s |-> 0, e |-> 0]
  ELSE LET e == First(f, s + 1, Len(f) + 1, LAMBDA l : l.k = "be") IN
       IF e = 0 THEN [res |-> "bad", s |-> 0, e |-> 0] ELSE [res |-> "yes", s |-> s, e |-> e]

-----------------------------------------------------------------------------
\* the reader as a state machine
\* rd = [blk (0: none yet), s, e, pos, cur: param -> line, val: param -> values, fnd: set, over: BOOLEAN]
Start(f) == [s |-> 0, e |-> 0, pos |-> 1, cur |-> [p \in Params |-> 1],
             val |-> [p \in Params |-> <<>>], fnd |-> {}]

DoBlock(f, rd) ==
  LET b == NextBlock(f, rd.pos) IN
  IF b.res = "yes"
  THEN [res |-> "yes", rd |-> [rd EXCEPT !.s = b.s, !.e = b.e, !.pos = b.e,
                                         !.cur = [p \in Params |-> IF p \in InBlock THEN b.s ELSE rd.cur[p]]]]
  ELSE [res |-> b.res, rd |-> IF b.res = "no" THEN [rd EXCEPT !.s = 0] ELSE rd]

Bound(f, rd, p) == IF p \in TopLevel THEN Len(f) + 1 ELSE rd.e

DoQuery(f, rd, p) ==
  LET q == Query(f, p, rd.cur[p], Bound(f, rd, p)) IN
  [res |-> q.res,
   rd |-> IF q.res \in {"no", "odd"} THEN rd
          ELSE [rd EXCEPT !.cur[p] = q.next,
                          !.val[p] = IF q.res = "yes" THEN q.v ELSE @,
                          !.fnd = IF q.res = "yes" THEN @ \cup {p} ELSE @]]

-----------------------------------------------------------------------------
(* generation of files and histories of queries *)
CONSTANTS MaxBlocks, Faulty
VARIABLES file, ops, phase, rd
gvars == <<file, ops, phase, rd>>

Pick(S) == RandomElement(S)
ScalarTok(p, bad) == IF bad > 0 /\ Pick(1 .. 100) <= bad THEN JUNK ELSE IF p = "f" THEN Pick(0 .. 1) ELSE Pick(0 .. 12)
L(k, p, v) == [k |-> k, p |-> p, v |-> v, c |-> Pick(0 .. 7), s |-> Pick(0 .. 3)]
Noise(z) == IF Pick(1 .. 4) = 1 THEN << L(Pick({"blank", "comment"}), "", <<>>) >> ELSE <<>>
RowToks(n, bad) == [i \in 1 .. n |-> IF bad > 0 /\ Pick(1 .. 100) <= bad THEN (IF i = n THEN JUNK ELSE Pick({JUNK, NONE})) ELSE Pick(0 .. 12)]
Entry(p) ==
  LET bad == IF Faulty THEN 12 ELSE 0 IN
  IF Kind[p] = "scalar" THEN << L("par", p, << ScalarTok(p, bad) >>) >>
  ELSE IF Kind[p] = "vector"
  THEN << L("par", p, RowToks(IF p \in UseDefault THEN Pick(1 .. 4) ELSE IF Faulty THEN Pick(2 .. 4) ELSE Pick(3 .. 4), bad + (IF p \in UseDefault THEN 15 ELSE 0))) >>
  ELSE LET n == Pick(0 .. 3) IN
       << L("ms", p, <<>>) >>
       \o FlattenSeq([i \in 1 .. n |-> Noise(i) \o << L("row", p, RowToks(IF p \in UseDefault THEN Pick(1 .. Cols[p] + 1)
                                                     ELSE IF Faulty /\ Pick(1 .. 8) = 1 THEN Pick(1 .. 3) ELSE Cols[p], IF p \in UseDefault THEN 15 ELSE bad)) >>])
       \o Noise(p)
       \o (IF Faulty /\ Pick(1 .. 10) = 1 THEN <<>> ELSE << L("me", p, <<>>) >>)
Body(z) == FlattenSeq([i \in 1 .. Pick(0 .. 7) |-> Noise(i) \o Entry(Pick(Params))])
Block(z) == << L("bs", "", <<>>) >> \o Body(z) \o Noise(z) \o (IF Faulty /\ Pick(1 .. 12) = 1 THEN <<>> ELSE << L("be", "", <<>>) >>)
Outside(z) == Noise(z) \o (IF Pick(1 .. 3) = 1 THEN Entry(Pick(Params)) ELSE <<>>) \o Noise(z)

Init == file = <<>> /\ ops = <<>> /\ phase = 0 /\ rd = Start(<<>>)
MakeFile == /\ phase = 0 /\ phase' = 1
            /\ \E f \in {FlattenSeq([i \in 1 .. Pick(0 .. MaxBlocks) |-> Outside(i) \o Block(i)]) \o Outside(0)} :
                 file' = f /\ rd' = Start(f)
            /\ UNCHANGED ops
Done == rd.s = 0 /\ Len(ops) > 3 /\ ops[Len(ops)] = << "block" >> /\ ops[Len(ops) - 1] = << "block" >>
Usable(p) == p \in TopLevel \/ rd.s > 0
AskBlock == /\ phase = 1 /\ Len(ops) < 22 /\ ~Done /\ (rd.s = 0 \/ Pick(1 .. 6) = 1)
            /\ LET x == DoBlock(file, rd) IN
               /\ rd' = x.rd /\ ops' = Append(ops, << "block" >>)
               /\ phase' = IF x.res \in {"bad", "odd"} THEN 2 ELSE 1
            /\ UNCHANGED file
\* ask mostly for what is there
Next1 == IF rd.s > 0 THEN {file[i].p : i \in {j \in rd.s .. rd.e : file[j].k \in {"par", "ms"} /\ j >= rd.cur[file[j].p]}} ELSE {}
AskPara == /\ phase = 1 /\ Len(ops) < 22 /\ ~Done
           /\ \E p \in {IF Next1 # {} /\ Pick(1 .. 4) > 1 THEN Pick(Next1) ELSE Pick(Params)} :
              /\ Usable(p)
              /\ LET x == DoQuery(file, rd, p) IN
                 /\ rd' = x.rd /\ ops' = Append(ops, << "q", p >>)
                 /\ phase' = IF x.res \in {"bad", "odd"} THEN 2 ELSE 1
           /\ UNCHANGED file
Finish == /\ phase \in {1, 2} /\ (phase = 2 \/ Len(ops) >= 22 \/ Done)
          /\ phase' = 3 /\ PrintT(<<"HIST", ToJson([f |-> file, o |-> ops])>>)
          /\ UNCHANGED <<file, ops, rd>>
Next == MakeFile \/ AskBlock \/ AskPara \/ Finish
Spec == Init /\ [][Next]_gvars

\* sanity of the model: cursors stay inside the file, blocks are ordered and
\* what has been found is a value of the right shape
CursorOK == \A p \in Params : rd.cur[p] \in 1 .. Len(file) + 1
BlockOK == rd.s > 0 => (rd.s < rd.e /\ file[rd.s].k = "bs" /\ file[rd.e].k = "be" /\ rd.pos = rd.e)
ValueOK == \A p \in rd.fnd : IF Kind[p] = "matrix" THEN Len(rd.val[p]) % Cols[p] = 0 ELSE Len(rd.val[p]) = Cols[p]
=============================================================================
