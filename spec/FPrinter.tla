------------------------------ MODULE FPrinter ------------------------------
(* Which modules a printed circuit holds, and in which order. Modules are   *)
(* numbered, deps[m] is the sequence of modules instantiated by m.          *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Closure(_, _, _)
Closure(deps, todo, done) ==             \* everything reachable
  IF todo = {} THEN done
  ELSE LET m == CHOOSE m \in todo : TRUE
           ds == {deps[m][i] : i \in 1 .. Len(deps[m])}
       IN Closure(deps, (todo \cup (ds \ done)) \ {m}, done \cup {m})
Needed(deps, top) == Closure(deps, {top}, {})

(* What is demanded of an order.                                            *)
OrderOk(deps, top, order) ==
  /\ {order[i] : i \in 1 .. Len(order)} = Needed(deps, top)
  /\ Len(order) = Cardinality(Needed(deps, top))
  /\ order[Len(order)] = top
  /\ \A i \in 1 .. Len(order) :
       {deps[order[i]][k] : k \in 1 .. Len(deps[order[i]])} \subseteq {order[j] : j \in 1 .. i - 1}

(* Instances of a statement list, nested branches included, textual order.  *)
RECURSIVE InstIds(_)
InstIds(ss) ==
  IF Len(ss) = 0 THEN <<>>
  ELSE LET s == Head(ss)
           own == CASE s.s = "decl" -> IF s.ent.k = "inst" THEN <<s.ent.mi>> ELSE <<>>
                    [] s.s = "when" -> InstIds(s.t) \o InstIds(s.f)
                    [] OTHER -> <<>>
       IN own \o InstIds(Tail(ss))

(* A printer as a machine: a stack of modules with the position of the next *)
(* instance to be looked at.                                                *)
PInit(top) == [stack |-> <<[m |-> top, i |-> 1]>>, seen |-> {top}, out |-> <<>>]
PDone(s) == s.stack = <<>>
PStep(deps, s) ==
  LET f == s.stack[Len(s.stack)]
      rest == SubSeq(s.stack, 1, Len(s.stack) - 1)
  IN IF f.i > Len(deps[f.m])
     THEN [s EXCEPT !.stack = rest, !.out = Append(@, f.m)]
     ELSE LET d == deps[f.m][f.i]
              up == Append(rest, [f EXCEPT !.i = @ + 1])
          IN IF d \in s.seen THEN [s EXCEPT !.stack = up]
             ELSE [s EXCEPT !.stack = Append(up, [m |-> d, i |-> 1]), !.seen = @ \cup {d}]
=============================================================================
