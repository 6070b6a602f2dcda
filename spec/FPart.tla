------------------------------- MODULE FPart -------------------------------
(* Parts of a circuit on their own: when two of them are the same, and what *)
(* a text says as a part of some kind.                                      *)
EXTENDS FGrammar

Has(x, key) == key \in DOMAIN x
ToSet(s) == {s[i] : i \in 1 .. Len(s)}
SameValue(a, b) == \/ a = b
                   \/ Has(a, "dbl") /\ Has(b, "dbl") /\ SameDbl(a.dbl, b.dbl)
SameParams(a, b) ==
  Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : \E j \in 1 .. Len(b) : a[i].k = b[j].k /\ SameValue(a[i].v, b[j].v)
Bare(m) == [m EXCEPT !.params = <<>>]
SameModule(a, b) == Bare(a) = Bare(b) /\ SameParams(a.params, b.params)
SameModules(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : SameModule(a[i], b[i])

(* A module together with all modules instantiated by it.                   *)
RECURSIVE Whole(_, _), WholeBody(_, _)
WholeBody(ms, b) ==
  TLCEval([i \in 1 .. Len(b) |->
     CASE b[i].s = "decl" ->
            IF b[i].ent.k = "inst" THEN [inst |-> b[i].ent.n, info |-> b[i].info, of |-> Whole(ms, b[i].ent.mi)] ELSE b[i]
       [] b[i].s = "when" -> [b[i] EXCEPT !.t = WholeBody(ms, @), !.f = WholeBody(ms, @)]
       [] OTHER -> b[i]])
Whole(ms, i) == [ms[i] EXCEPT !.body = WholeBody(ms, @)]

SamePart(k, a, b) ==
  CASE k = "otype" -> Orient(a.ty, a.f) = Orient(b.ty, b.f)
    [] k = "param" -> SameValue(a, b)
    [] k = "mod" -> SameModule(a, b)
    [] k = "circ" -> a.info = b.info /\ Whole(a.mods, Len(a.mods)) = Whole(b.mods, Len(b.mods))
    [] k = "stmtkind" -> [a EXCEPT !.info = <<>>] = [b EXCEPT !.info = <<>>]
    [] OTHER -> a = b

NameMap(xs) ==                           \* names of a sequence, all distinct
  LET f[i \in 0 .. Len(xs)] == IF i = 0 THEN <<>> ELSE Bind(f[i - 1], xs[i].n, i) IN f[Len(xs)]
EnvScope(env) == [ent |-> NameMap(env.decls), mem |-> NameMap(env.smems), mod |-> NameMap(env.mods)]

KeyOf(d) == CASE d = "read" -> "reader" [] d = "write" -> "writer" [] d = "rdwr" -> "readwriter"
Word(t, w) == IF Cut(t, 1, t.n) = w THEN Yes(t.n + 1, w) ELSE Fail
Only(r, h) == IF r.ok /\ r.v.h = "stmt" /\ r.v.v.s = h /\ r.v.v.info = <<>> THEN r ELSE Fail

ReadPart(t, k, d, s) ==                  \* what a text says, as a part of kind k
  CASE k = "type" -> Type(t, 1)
    [] k = "ground" -> GroundType(t, 1)
    [] k = "field" -> TypeField(t, 1)
    [] k \in {"expr", "op"} -> Expr(t, 1, s)
    [] k = "param" -> ParamValue(t, 1)
    [] k = "memport" -> MemEntry(t, 1)
    [] k = "smem" -> LET r == Only(StmtLine(t, 1, s), "smem") IN IF r.ok THEN Yes(r.p, r.v.v.m) ELSE Fail
    [] k = "ent" -> IF d.k = "port" THEN PortLine(t, 1)
                    ELSE LET r == Only(StmtLine(t, 1, s), "decl") IN IF r.ok THEN Yes(r.p, r.v.v.ent) ELSE Fail
    [] k \in {"dir", "dirkw"} -> Word(t, d)
    [] k \in {"ruw", "ruwkw"} -> Word(t, d)
    [] k \in {"smemkw", "modkw"} -> Word(t, d.kind)
=============================================================================
