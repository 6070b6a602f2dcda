------------------------------- MODULE MC_Ctx -------------------------------
(* All short histories of context operations. A context must answer as if   *)
(* there were one flat list of additions: the latest one of a name counts,  *)
(* as inner contexts hand on what they learnt. Histories are emitted.       *)
EXTENDS FContext, Json, IOUtils, FiniteSets

Max == IF IOEnv.TIER = "thorough" THEN 7 ELSE 6
Ents == << "a", "a", "b" >>              \* names of entities 1 .. 3
Mems == << "a", "a" >>                   \* and of memories

VARIABLES c, h                           \* context, history
Ops == {[a |-> "ent", i |-> i] : i \in 1 .. Len(Ents)} \cup {[a |-> "mem", i |-> i] : i \in 1 .. Len(Mems)}
       \cup {[a |-> "push", i |-> 0], [a |-> "pop", i |-> 0]}
Enabled(op) == (op.a = "pop" => Depth(c) > 1) /\ (op.a = "push" => Depth(c) < 4)
Apply(op) == CASE op.a = "ent" -> AddEnt(c, Ents[op.i], op.i)
               [] op.a = "mem" -> AddMem(c, Mems[op.i], op.i)
               [] op.a = "push" -> PushLevel(c) [] op.a = "pop" -> PopLevel(c)

Init == h = <<>> /\ c = NewTop(<<>>)
Next == Len(h) < Max /\ \E op \in Ops : Enabled(op) /\ c' = Apply(op) /\ h' = Append(h, op)

Latest(kind, names, n) ==
  LET is == {k \in 1 .. Len(h) : h[k].a = kind /\ names[h[k].i] = n}
  IN IF is = {} THEN 0 ELSE h[CHOOSE k \in is : \A j \in is : j <= k].i
Flat == /\ \A n \in {"a", "b", "z"} : Seek(c, "ent", n) = Latest("ent", Ents, n)
        /\ \A n \in {"a", "b", "z"} : Seek(c, "mem", n) = Latest("mem", Mems, n)

(* A level keeps its additions to itself until it is dropped.               *)
Hidden == [][Depth(c') > 1 /\ Depth(c') = Depth(c) => SubSeq(c', 1, Depth(c) - 1) = SubSeq(c, 1, Depth(c) - 1)]_<<c, h>>
Emit == Len(h) = Max => PrintT("EMIT " \o ToJson(h))
=============================================================================
