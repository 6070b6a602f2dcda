------------------------------ MODULE MC_Iter -------------------------------
(* The iterator of modules, driven by all short histories of asking for the *)
(* next module and making modules known, on all short texts.                *)
EXTENDS FParser, Json, IOUtils, SequencesExt

Parts == << " module A :\n", " module B :\n  skip\n", " module C :\n  inst x of A\n  inst y of B\n", " module A :\n  inst x of A\n", " extmodule A :\n", " nonsense\n" >>
Added == << [NoMod EXCEPT !.n = "A", !.kind = "extmodule", !.info = <<"added">>],
            [NoMod EXCEPT !.n = "B", !.kind = "module"] >>
TextLen == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
Longest == IF IOEnv.TIER = "thorough" THEN 6 ELSE 5
Chs(str) == [i \in 1 .. Len(str) |-> Ch(str, i)]

Sels == UNION {[1 .. n -> 1 .. Len(Parts)] : n \in 0 .. TextLen}
TextOf(s) == FoldLeft(LAMBDA acc, i : acc \o Parts[i], "", s)

VARIABLES sel, ps, h, known              \* parts, iterator, history, modules made known
T == Lex(Chs(TextOf(sel)))
RECURSIVE Run2(_, _, _)
Run2(p, t, n) == IF p.ph = "done" \/ Len(p.own) > n THEN p ELSE Run2(Step(p, t), t, n)

Init == sel \in Sels /\ ps = InitModules /\ h = <<>> /\ known = <<>>
Ask == LET q == Run2(ps, T, Len(ps.own)) IN
       /\ ps' = q /\ h' = Append(h, 0)
       /\ known' = IF Len(q.own) > Len(ps.own) THEN Append(known, q.own[Len(q.own)]) ELSE known
Add(i) == ps' = AddModule(ps, Added[i]) /\ h' = Append(h, i) /\ known' = Append(known, Added[i])
Next == /\ Len(h) < Longest /\ (Ask \/ \E i \in 1 .. 2 : Add(i)) /\ UNCHANGED sel

(* The table holds the latest module of each name, and nothing else.        *)
Table ==
  /\ ps.mods = known
  /\ \A n \in {"A", "B", "C", "Z"} :
       LET is == {i \in 1 .. Len(known) : known[i].n = n} IN
       IF is = {} THEN n \notin DOMAIN ps.tab
       ELSE n \in DOMAIN ps.tab /\ known[ps.tab[n]] = known[CHOOSE i \in is : \A j \in is : j <= i]
(* Modules come in textual order, one at a time, and never behind a fault.  *)
Order == \A i \in 1 .. Len(ps.own) : ps.own[i].n = (<<"A", "B", "C", "A", "A", "?">>)[sel[i]]
OneByOne == [][Len(ps'.own) <= Len(ps.own) + 1]_<<sel, ps, h, known>>
Final == [][ps.ph = "done" => ps'.own = ps.own /\ ps'.ph = "done" /\ ps'.err = ps.err]_<<sel, ps, h, known>>
(* Instances refer to what was known when their module was read.            *)
Instances == \A i \in 1 .. Len(ps.mods) : \A j \in 1 .. Len(ps.mods[i].body) :
  LET s == ps.mods[i].body[j] IN
  s.s = "decl" /\ s.ent.k = "inst" => s.ent.mi < i /\ ps.mods[s.ent.mi].n = s.ent.of
Emit == Len(h) = Longest => PrintT("EMIT " \o ToJson([s |-> sel, h |-> h]))
ASSUME PrintT("ENV " \o ToJson([parts |-> Parts, added |-> Added]))
=============================================================================
