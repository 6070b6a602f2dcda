---------------------------- MODULE MC_Consumer ----------------------------
(* All short sequences of modules and errors, consumed step by step.        *)
EXTENDS FConsumer, Json, IOUtils, TLC, FiniteSets

Max == IF IOEnv.TIER = "thorough" THEN 5 ELSE 4
Names == << "A", "B", "A", "C" >>        \* two modules share a name

VARIABLES c, items, top, log             \* log: what was passed through
Seqs == UNION {[1 .. n -> 0 .. Len(Names)] : n \in 0 .. Max}
Init == /\ items \in Seqs /\ top \in {"A", "B", "Z"}
        /\ c = NewConsumer(items, top) /\ log = <<>>
Next == /\ NextItem(c) # -1
        /\ log' = Append(log, NextItem(c)) /\ c' = Advance1(c, Names) /\ UNCHANGED <<items, top>>

PassedThrough == log = SubSeq(items, 1, Len(log))
FirstMatch(s) == LET is == {i \in 1 .. Len(s) : s[i] # 0 /\ Names[s[i]] = top}
                 IN IF is = {} THEN 0 ELSE s[CHOOSE i \in is : \A j \in is : i <= j]
OfferedOnce == Offers(c) = FirstMatch(log)
Stays == [][c.found # 0 => c'.found = c.found]_<<c, items, top, log>>
DrainIsAll == Drain(c, Names) = (IF \E i \in Len(log) + 1 .. Len(items) : items[i] = 0 THEN 0
                                 ELSE FirstMatch(items))
Emit == c.pos = 1 => PrintT("EMIT " \o ToJson([items |-> items, top |-> top]))
=============================================================================
