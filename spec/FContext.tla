----------------------------- MODULE FContext ------------------------------
(* Name tables used while parsing, as driven by a caller. A context is a    *)
(* stack of levels, the outermost first; a level holds its own additions    *)
(* until it is dropped.                                                     *)
EXTENDS Integers, Sequences, TLC

Level0 == [ent |-> <<>>, mem |-> <<>>]
NewTop(init) == << [Level0 EXCEPT !.ent = init] >>

Depth(c) == Len(c)
AddEnt(c, n, id) == [c EXCEPT ![Len(c)].ent = (n :> id) @@ @]
AddMem(c, n, id) == [c EXCEPT ![Len(c)].mem = (n :> id) @@ @]

RECURSIVE Seek(_, _, _)
Seek(c, ns, n) ==                        \* 0 if unknown
  IF Len(c) = 0 THEN 0
  ELSE LET f == IF ns = "ent" THEN c[Len(c)].ent ELSE c[Len(c)].mem IN
       IF n \in DOMAIN f THEN f[n] ELSE Seek(SubSeq(c, 1, Len(c) - 1), ns, n)

PushLevel(c) == Append(c, Level0)
PopLevel(c) ==                           \* hand everything to the parent
  LET l == Len(c) IN
  [SubSeq(c, 1, l - 1) EXCEPT ![l - 1] =
     [ent |-> c[l].ent @@ @.ent, mem |-> c[l].mem @@ @.mem]]
=============================================================================
