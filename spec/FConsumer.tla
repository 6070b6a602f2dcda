----------------------------- MODULE FConsumer -----------------------------
(* The consumer wrapped around an iterator of modules. Items are module     *)
(* names' indices; 0 is an error.                                           *)
EXTENDS Integers, Sequences

NewConsumer(items, top) == [items |-> items, pos |-> 1, top |-> top, found |-> 0, live |-> TRUE]

(* result of next: "none", "err" or "ok"; names[i] is the name of module i  *)
NextItem(c) == IF c.pos > Len(c.items) THEN -1 ELSE c.items[c.pos]
Advance1(c, names) ==
  LET i == NextItem(c) IN
  IF i = -1 THEN c
  ELSE [c EXCEPT !.pos = @ + 1,
                 !.found = IF @ = 0 /\ i > 0 /\ names[i] = c.top THEN i ELSE @]

Offers(c) == c.found                     \* top module of the circuit, or 0

(* Turning it into a circuit drains the iterator: it fails if any module    *)
(* does or if the top never appears.                                        *)
RECURSIVE Drain(_, _)
Drain(c, names) ==                       \* top, 0 if there is no circuit
  LET i == NextItem(c) IN
  IF i = -1 THEN c.found ELSE IF i = 0 THEN 0 ELSE Drain(Advance1(c, names), names)
=============================================================================
