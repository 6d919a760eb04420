------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The protocol of a meshing session: which calls a client may issue in      *)
(* which order, with the abstract effect of each call on the set of meshes.  *)
(*  - checked exhaustively for small bounds (SessionMC.cfg): the protocol     *)
(*    invariants below;                                                       *)
(*  - simulated (SessionGen.cfg): every behaviour is one command sequence     *)
(*    that is replayed into the real library, whose recorded trace is then    *)
(*    validated against MeshOps (MeshTrace.tla).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxLen,      \* commands per session
          MaxRefine,   \* refinements per session
          R,           \* variation parameter 0..R of a command
          Gen          \* TRUE: print the behaviours

Focus == IF "FOCUS" \in DOMAIN IOEnv THEN IOEnv.FOCUS ELSE "mix"

\* the calls a property's sessions concentrate on
OpsOf == CASE Focus = "C03" -> {"new","ql","trik","tri","check"}
           [] Focus = "C05" -> {"new","ql","trik","tri","tri2quad","smooth","refine","merge"}
           [] Focus = "C06" -> {"new","ql","trik","tri","tri2quad","refine","merge","smooth"}
           [] Focus = "C07" -> {"new","ql","trik","tri","tri2quad","refine","smooth","merge"}
           [] Focus = "C08" -> {"new","ql","trik","tri","tri2quad","refine","smooth","merge"}
           [] Focus = "C09" -> {"new","tri","trik","tri2quad","merge","smooth","refine","check","ql"}
           [] Focus = "C10" -> {"new","tri","trik","ql","tri2quad","refine","merge","write","check"}
           [] Focus = "C14" -> {"new","ql","tri","trik","smooth","tri2quad"}
           [] Focus = "C16" -> {"new","ql","trik","tri","tri2quad","refine","smooth","check"}
           [] OTHER -> {"new","ql","trik","tri","tri2quad","refine","smooth","merge","check","write"}
MultiOnly == Focus \in {"C08", "C09"}
SingleOnly == Focus \in {"C03", "C16"}

\* layout -> number of domains and which of them touch
\* (step, tee: the last domain's side is longer than the sides of its neighbours; it is
\* meshed after them, which makes the meshes match.  stagger: the sides overlap in part only,
\* the meshes need not match there and are not merged)
Layouts == <<"single", "pair", "hole", "row", "fan", "grid", "step", "tee", "stagger">>
NDom  == [single |-> 1, pair |-> 2, hole |-> 2, row |-> 3, fan |-> 3, grid |-> 4,
          step |-> 2, tee |-> 3, stagger |-> 2]
Adj   == [single |-> {}, pair |-> {{1,2}}, hole |-> {{1,2}}, row |-> {{1,2},{2,3}},
          fan |-> {{1,2},{2,3}}, grid |-> {{1,2},{1,3},{2,4},{3,4}},
          step |-> {{1,2}}, tee |-> {{1,3},{2,3}}, stagger |-> {}]
\* domains that get their mesh only after those of all other domains
Late  == [single |-> 0, pair |-> 0, hole |-> 0, row |-> 0, fan |-> 0, grid |-> 0,
          step |-> 2, tee |-> 3, stagger |-> 0]

VARIABLES layout,  \* chosen arrangement of the domains ("" = not chosen yet)
          mesh,    \* live mesh id -> [doms, st]; st in {"empty","part","full"}
          gone,    \* domains whose mesh was absorbed or that were never meshed
          nref, hist, done
vars == <<layout, mesh, gone, nref, hist, done>>

Init == layout = "" /\ mesh = [m \in {} |-> 0] /\ gone = {} /\ nref = 0 /\ hist = <<>> /\ done = FALSE

Live == DOMAIN mesh
Log(c) == hist' = Append(hist, c)
Cap == IF Gen /\ MultiOnly THEN MaxLen + 4 ELSE MaxLen
Room == layout # "" /\ ~done /\ Len(hist) < Cap
Last2 == IF Len(hist) > 1 THEN hist[Len(hist)] ELSE [c |-> "", m |-> 0]
Touch(a, b) == \E x \in mesh[a].doms : \E y \in mesh[b].doms : {x, y} \in Adj[layout]
Linked(m) == \E o \in Live \ {m} : Touch(m, o)
\* one session in eight issues calls in unusual states as well
Odd == hist[1].r \in 14..15
\* sessions that measure thin layers: one domain without holes, the layers come first
Thin(r) == r >= 16
Layered(m) == ~Thin(hist[1].r) \/ mesh[m].st # "empty"
\* sessions about several meshes set up two of them before anything else
Ready == ~MultiOnly \/ Odd \/ Cardinality(Live \cup gone) >= 2
May(op) == Room /\ op \in OpsOf /\ (Ready \/ op \in {"new", "tri"})
\* ... and no call is repeated at once
Fresh(c, m) == Odd \/ Last2.c # c \/ Last2.m # m
Meshed(m) == Odd \/ mesh[m].st # "empty"
Upd(m, st) == mesh' = [mesh EXCEPT ![m].st = st]

Choose == /\ layout = ""
          /\ \E k \in 1..Len(Layouts), r \in 0..(IF Focus = "C14" THEN 63 ELSE 15) :
               /\ (MultiOnly => Layouts[k] # "single")
               /\ (Thin(r) => Layouts[k] = "single")
               /\ ((SingleOnly /\ r % 4 # 0) => Layouts[k] = "single")
               /\ (r % 2 = 0 => Layouts[k] \in {"single", "pair", "row"})
               /\ layout' = Layouts[k]
               /\ Log([c |-> "layout", k |-> Layouts[k], r |-> r])
          /\ UNCHANGED <<mesh, gone, nref, done>>

New == /\ May("new")
       /\ \E d \in 1..NDom[layout], r \in 0..R :
            /\ d \notin Live /\ d \notin gone
            /\ d = Late[layout] => \A x \in (1..NDom[layout]) \ {d} : x \in Live \cup gone
            /\ mesh' = mesh @@ (d :> [doms |-> {d}, st |-> "empty"])
            /\ Log([c |-> "new", m |-> d, r |-> r])
       /\ UNCHANGED <<layout, gone, nref, done>>

\* quad layers: may fail; never completes more than it did
Layer == /\ May("ql")
         /\ \E m \in Live, r \in 0..R :
              /\ Odd \/ mesh[m].st # "full"
              /\ Odd \/ Cardinality({i \in DOMAIN hist : hist[i].c = "ql"}) < 3
              /\ Upd(m, IF mesh[m].st = "empty" THEN "part" ELSE mesh[m].st)
              /\ Log([c |-> "ql", m |-> m, r |-> r])
         /\ UNCHANGED <<layout, gone, nref, done>>

TriSome == /\ May("trik")
           /\ \E m \in Live, r \in 0..R :
                /\ Odd \/ mesh[m].st # "full"
                /\ Layered(m)
                /\ Upd(m, IF mesh[m].st = "full" THEN "full" ELSE "part")
                /\ Log([c |-> "trik", m |-> m, r |-> r])
           /\ UNCHANGED <<layout, gone, nref, done>>

TriAll == /\ May("tri")
          /\ \E m \in Live, r \in 0..R :
               /\ Odd \/ mesh[m].st # "full"
               /\ Layered(m)
               /\ Upd(m, "full")
               /\ Log([c |-> "tri", m |-> m, r |-> r])
          /\ UNCHANGED <<layout, gone, nref, done>>

Convert == /\ May("tri2quad")
           /\ \E m \in Live : Meshed(m) /\ Fresh("tri2quad", m) /\ Log([c |-> "tri2quad", m |-> m, r |-> 0])
           /\ UNCHANGED <<layout, mesh, gone, nref, done>>

Refine == /\ May("refine") /\ nref < MaxRefine
          /\ \E m \in Live : Meshed(m) /\ Fresh("refine", m) /\ Log([c |-> "refine", m |-> m, r |-> 0])
          /\ nref' = nref + 1
          /\ UNCHANGED <<layout, mesh, gone, done>>

Smooth == /\ May("smooth")
          /\ \E m \in Live, r \in 0..R : Meshed(m) /\ Log([c |-> "smooth", m |-> m, r |-> r])
          /\ UNCHANGED <<layout, mesh, gone, nref, done>>

Check == /\ May("check")
         /\ \E m \in Live : Fresh("check", m) /\ Log([c |-> "check", m |-> m, r |-> 0])
         /\ UNCHANGED <<layout, mesh, gone, nref, done>>

Write == /\ May("write")
         /\ \E m \in Live, r \in 0..R : Log([c |-> "write", m |-> m, r |-> r])
         /\ UNCHANGED <<layout, mesh, gone, nref, done>>

\* merging succeeds exactly for touching, meshed neighbours
Merge == /\ May("merge") /\ layout # "stagger"
         /\ \E a \in Live : \E b \in Live \ {a} :
              /\ Odd \/ (Touch(a, b) /\ mesh[a].st # "empty" /\ mesh[b].st # "empty")
              /\ Log([c |-> "merge", m |-> a, b |-> b, r |-> 0])
              /\ IF Touch(a, b) /\ mesh[a].st = "full" /\ mesh[b].st = "full"
                 THEN /\ mesh' = [m \in Live \ {b} |->
                                    IF m = a THEN [doms |-> mesh[a].doms \cup mesh[b].doms, st |-> "full"]
                                    ELSE mesh[m]]
                      /\ gone' = gone \cup {b}
                 ELSE UNCHANGED <<mesh, gone>>
         /\ UNCHANGED <<layout, nref, done>>

\* an erased mesh's id may be reused for a fresh mesh on a separate domain
Finish == /\ layout # "" /\ ~done /\ Live # {} /\ (Len(hist) = Cap \/ (~Gen /\ Len(hist) > 1)
                \/ (Gen /\ Len(hist) > 4 /\ SingleOnly /\ Last2.c = "check" /\ \A m \in Live : mesh[m].st = "full"))
          /\ done' = TRUE
          /\ (Gen => PrintT(<<"SESSION", ToJson(hist)>>))
          /\ UNCHANGED <<layout, mesh, gone, nref, hist>>

Next == Choose \/ New \/ Layer \/ TriSome \/ TriAll \/ Convert \/ Refine \/ Smooth
        \/ Check \/ Write \/ Merge \/ Finish
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ protocol invariants
DomsDisjoint == \A a \in Live : \A b \in Live \ {a} : mesh[a].doms \cap mesh[b].doms = {}
OwnDomain    == \A a \in Live : a \in mesh[a].doms
GoneAbsorbed == layout # "" => gone = (UNION {mesh[a].doms : a \in Live}) \ Live
ConnectedMerge == layout # "" =>    \* a merged mesh covers a connected set of domains
   \A a \in Live : \A S \in SUBSET mesh[a].doms :
      (S # {} /\ S # mesh[a].doms) => \E x \in S : \E y \in mesh[a].doms \ S : {x, y} \in Adj[layout]
MergedIsFull == \A a \in Live : Cardinality(mesh[a].doms) > 1 => mesh[a].st = "full"
ProtoView == <<layout, mesh, gone, nref, done, Len(hist), Last2.c, Last2.m, IF hist = <<>> THEN <<>> ELSE <<Odd, Thin(hist[1].r)>>>>
=============================================================================
