------------------------------- MODULE FSink -------------------------------
(* Printing into a target which may refuse what is written to it: it takes  *)
(* a number of characters, and refuses the first write beyond, once or for  *)
(* good. The printer says whether it succeeded.                             *)
EXTENDS Integers, Sequences, FiniteSets

NewSink == [got |-> "", refused |-> FALSE, late |-> FALSE]
Taken(s, t) == [s EXCEPT !.got = IF s.refused THEN @ ELSE @ \o t, !.late = @ \/ s.refused]
Refused(s) == [s EXCEPT !.refused = TRUE, !.late = @ \/ s.refused]

Starts(t, u) == Len(u) <= Len(t) /\ SubSeq(t, 1, Len(u)) = u

(* What is demanded when all is written and the printer answered.           *)
PrefixOk(s, full) == Starts(full, s.got)
AnswerOk(s, ok) == ok = ~s.refused
QuietOk(s) == ~s.late
WholeOk(s, full) == s.refused \/ s.got = full

RECURSIVE SinkAfter(_, _, _)
SinkAfter(s, es, i) ==
  IF i > Len(es) THEN s
  ELSE SinkAfter(IF es[i].e = "taken" THEN Taken(s, es[i].t) ELSE Refused(s), es, i + 1)
=============================================================================
