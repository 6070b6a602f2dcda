------------------------------ MODULE Conform ------------------------------
(* Replays observations of the implementation on the specification.         *)
(*                                                                          *)
(* An observation is [id, prop, op, q: request, r: what was observed, tx:   *)
(* the texts involved, as sequences of characters, pk: message if there was *)
(* a panic instead]. For every observation, the machines of the             *)
(* specification are run on the same input; each step is an action. `bad`   *)
(* collects what the specification does not allow.                          *)
EXTENDS FParser, FPart, FContext, FConsumer, FPrinter, FUtf8, FBuild, FSink, Json, IOUtils

Obs == TLCEval(ndJsonDeserialize(IOEnv.OBS))
Texts == TLCEval([i \in 1 .. Len(Obs) |-> [k \in 1 .. Len(Obs[i].tx) |-> TLCEval(Lex(Obs[i].tx[k]))]])

VARIABLES o, k, ps, rs, bad
vars == <<o, k, ps, rs, bad>>

Fault(c, name) == IF c THEN {} ELSE {name}
Panicked(r) == Has(r, "panic")

---------------------------------------------------------------------------
(* Up to what printing may change: empty branches, adjacent pieces of       *)
(* messages, numbering of modules.                                          *)
RECURSIVE NormMsg(_)
NormMsg(m) ==
  IF Len(m) = 0 THEN <<>>
  ELSE IF Has(m[1], "lit") THEN
    LET r == NormMsg(Tail(m)) IN
    IF m[1].lit = "" THEN r
    ELSE IF Len(r) > 0 /\ Has(r[1], "lit") THEN <<[lit |-> m[1].lit \o r[1].lit]>> \o Tail(r)
    ELSE <<m[1]>> \o r
  ELSE <<m[1]>> \o NormMsg(Tail(m))

RECURSIVE NormStmts(_)
NormStmt(s) ==
  CASE s.s = "when" ->
         [s EXCEPT !.t = IF @ = <<>> THEN <<[s |-> "skip", info |-> <<>>]>> ELSE NormStmts(@),
                   !.f = NormStmts(@)]
    [] s.s = "print" -> [s EXCEPT !.msg = NormMsg(@)]
    [] s.s = "decl" -> IF s.ent.k = "inst" THEN [s EXCEPT !.ent.mi = 0] ELSE s
    [] OTHER -> s
NormStmts(b) == TLCEval([i \in 1 .. Len(b) |-> NormStmt(b[i])])
NormModule(m) == [m EXCEPT !.body = NormStmts(@)]
AlikeModule(a, b) == SameModule(NormModule(a), NormModule(b))

RECURSIVE HasRepr(_)                     \* whether printing may change anything
HasRepr(b) == \E i \in 1 .. Len(b) :
  CASE b[i].s = "when" -> b[i].t = <<>> \/ HasRepr(b[i].t) \/ HasRepr(b[i].f)
    [] b[i].s = "print" -> NormMsg(b[i].msg) # b[i].msg
    [] OTHER -> FALSE

---------------------------------------------------------------------------
(* Outcome of parsing a text as a whole. x: observation of `parse`          *)
SameOutcome(c, p) ==                     \* c: what was returned
  IF Accepted(p) THEN c.k = "ok" /\ c.top = TopIdx(p) /\ c.info = p.info
  ELSE c.k = "err"
MTop(p, i) == [p EXCEPT !.own = SubSeq(@, 1, i)]

(* Positions in own and known modules agree as no modules are added; equal  *)
(* modules are identified with the first of them.                           *)
TopFirst(p) == LET i == TopIdx(p) IN IF i = 0 THEN 0 ELSE FirstEqual(p.own, p.own[i])

YieldFaults(x, p) ==
  Fault(x.hdr = HeaderRead(p), "header accepted or rejected")
  \cup Fault(SameModules(x.mods, p.own), "modules yielded")
  \cup Fault((x.end.k = "err") = p.err, "error reported")
  \cup Fault(\A i \in 1 .. Len(x.after) : x.after[i] = "none", "iteration goes on behind its end")

TopsFaults(x, p) ==
  Fault(x.hdr => x.start.k = "err", "circuit offered before any module")
  \cup Fault(Len(x.tops) = Len(x.mods), "number of modules")
  \cup UNION { LET q == MTop(p, i)  t == TopIdx(q) IN
               Fault(IF t = 0 THEN x.tops[i].k = "err"
                     ELSE x.tops[i].k = "ok" /\ x.tops[i].top = FirstEqual(q.own, q.own[t]) /\ x.tops[i].info = p.info,
                     "circuit offered by the consumer")
               : i \in 1 .. (IF Len(x.tops) < Len(p.own) THEN Len(x.tops) ELSE Len(p.own)) }

CircFaults(x, p) ==
  Fault(x.circ.k = (IF Accepted(p) THEN "ok" ELSE "err"), "text accepted or rejected")
  \cup Fault(x.circ.k = "ok" /\ Accepted(p) => x.circ.top = TopFirst(p) /\ x.circ.info = p.info, "top module or info")
  \cup Fault(IF x.circ.k = "ok" THEN x.read.k = "ok" /\ x.read.top = x.circ.top /\ x.read.info = x.circ.info
             ELSE x.read.k = "err", "reading from a stream")

RefdNames(m) == LET is == InstIds(m.body) IN is
RefdFaults(x, p) ==
  Fault(Accepted(p) /\ x.circ.k = "ok" =>
          LET t == p.own[TopIdx(p)]
              ns == [i \in 1 .. Len(InstIds(t.body)) |-> p.own[InstIds(t.body)[i]].n]
          IN /\ Len(ns) = Len(x.refd)
             /\ \A n \in ToSet(ns) \cup ToSet(x.refd) :
                  Cardinality({i \in 1 .. Len(ns) : ns[i] = n}) = Cardinality({i \in 1 .. Len(x.refd) : x.refd[i] = n}),
        "modules referenced")

(* Lines of a rejected text.                                                *)
LineFaults(x, p, t) ==
  IF ~p.err \/ x.end.k # "err" THEN {}
  ELSE LET r == LineOf(t, p.ep)
           z == LineOf(t, StatementEnd(t, p.ep))
           blocks == {LineOf(t, q) : q \in p.eps \ {0}}
           ls == x.end.lines
       IN Fault(\A i \in 1 .. Len(ls) : ls[i] <= z, "a line behind the fault is reported")
          \cup Fault(Len(ls) > 0 \/ t.n = 0, "no line is reported")
          \cup (IF Len(ls) > 0 /\ p.hp # 0 THEN Fault(ls[1] \in blocks \cup (r .. z), "innermost line is neither the fault's nor its block's") ELSE {})

ParseFaults(pr, x, p, t) ==
  CASE pr \in {"C02", "C05", "C15", "C16"} ->
              CircFaults(x, p) \cup Fault(Accepted(p) /\ x.circ.k = "ok" => SameModules(x.mods, p.own), "meaning")
         [] pr = "C03" ->
              Fault(~Accepted(p) => x.circ.k = "err", "malformed text accepted")
              \cup Fault(~Accepted(p) => x.read.k = "err", "malformed text accepted")
              \cup Fault(p.err => x.end.k = "err", "malformed text accepted by the iterator")
              \cup Fault(x.circ.k = "ok" /\ Accepted(p) => SameModules(x.mods, p.own), "something is left out")
         [] pr = "C06" -> YieldFaults(x, p)
         [] pr = "C07" -> TopsFaults(x, p) \cup CircFaults(x, p)
                          \cup Fault(SameModules(x.mods, p.own), "modules passed through")
         [] pr = "C17" -> Fault(x.det, "outcome differs between runs")
                          \cup Fault(\A i \in 1 .. Len(x.after) : x.after[i] = "none", "iteration goes on behind its end")
         [] pr = "C18" -> RefdFaults(x, p)
         [] pr = "C20" -> LineFaults(x, p, t)
         [] OTHER -> CircFaults(x, p) \cup YieldFaults(x, p)

---------------------------------------------------------------------------
(* Several layouts of one text: the first is the original.                  *)
LayoutFaults(x, p) ==
  LET a == x[1] IN
  UNION { LET b == x[i] IN
          IF Panicked(b) THEN {"panic"}
          ELSE Fault(b.circ.k = (IF Accepted(p[i]) THEN "ok" ELSE "err"), "layout decides acceptance")
               \cup Fault(b.circ.k = "ok" /\ Accepted(p[i]) =>
                            SameModules(b.mods, p[i].own) /\ b.circ.top = TopFirst(p[i]) /\ b.circ.info = p[i].info,
                          "layout changes the meaning")
          : i \in 1 .. Len(x) }

LayoutSpec(q, p) ==                      \* what the specification promises
  \A i \in 2 .. Len(p) : q.same[i] => /\ Accepted(p[i]) = Accepted(p[1])
                                      /\ Accepted(p[1]) => SameModules(p[i].own, p[1].own) /\ p[i].info = p[1].info

(* Shifted texts: x[1] the original, x[i] behind q.k[i] more lines.         *)
ShiftFaults(q, x) ==
  UNION { LET a == x[1]  b == x[i] IN
          IF Panicked(a) \/ Panicked(b) THEN {"panic"}
          ELSE Fault(a.circ.k = b.circ.k /\ a.end.k = b.end.k, "outcome changes")
               \cup Fault(b.end.k = "err" => b.end.msg = a.end.msg, "message changes")
               \cup Fault(b.end.k = "err" /\ a.hdr =>
                            /\ Len(a.end.lines) = Len(b.end.lines)
                            /\ \A j \in 1 .. Len(a.end.lines) : b.end.lines[j] = a.end.lines[j] + q.k[i],
                          "lines are not shifted")
          : i \in 2 .. Len(x) }

(* Modules in the middle of a text: x[1] was told the whole text, x[2] only *)
(* the part; p: the parser behind the part, t: the part, u: what precedes.  *)
OriginFaults(x, p, t, u) ==
  LET n == LineOf(u, u.n + 1) - 1  a == x[1]  b == x[2] IN
  Fault(SameModules(a.mods, p.own) /\ SameModules(b.mods, p.own), "modules yielded")
  \cup Fault((a.end.k = "err") = p.err /\ (b.end.k = "err") = p.err, "error reported")
  \cup (IF a.end.k # "err" \/ b.end.k # "err" THEN {}
        ELSE Fault(/\ Len(a.end.lines) = Len(b.end.lines)
                   /\ \A j \in 1 .. Len(a.end.lines) : a.end.lines[j] = b.end.lines[j] + n, "lines do not count from the origin")
             \cup Fault(u.n = 0 \/ At(u, u.n) = LF => a.end.msg = b.end.msg, "message changes"))
  \cup LineFaults(b, p, t)

---------------------------------------------------------------------------
(* Printing and reading back.                                               *)
DepsOf(ms) == TLCEval([i \in 1 .. Len(ms) |-> InstIds(ms[i].body)])
NameIdx(ms, n) == CHOOSE i \in 1 .. Len(ms) : ms[i].n = n

PrintFaults(q, x, p) ==                  \* what is printed
  LET ms == x.built
      deps == DepsOf(ms)
      need == TLCEval(Needed(deps, q.top))
      ok == p[1].ph = "done" /\ ~p[1].err
      ns == TLCEval([i \in 1 .. Len(p[1].own) |-> p[1].own[i].n])
      known == ToSet(ns) \subseteq {ms[j].n : j \in 1 .. Len(ms)}
      at == TLCEval([i \in 1 .. Len(ns) |-> NameIdx(ms, ns[i])])      \* only if known
  IN [order |-> Fault(ok, "printed text is malformed")
        \cup (IF ~ok THEN {}
              ELSE Fault(known, "unknown module is printed")
                   \cup Fault(known => ToSet(at) = need, "wrong set of modules")
                   \cup Fault(known => Len(ns) = Cardinality(need), "module printed twice")
                   \cup Fault(known => OrderOk(deps, q.top, at), "wrong order")
                   \cup Fault(p[1].name = ms[q.top].n, "header names another module")),
      same |-> Fault(ok, "printed text is malformed")
        \cup (IF ~ok THEN {}
              ELSE Fault(\A i \in 1 .. Len(ns) : known => AlikeModule(p[1].own[i], ms[at[i]]),
                         "printed text denotes another module")
                   \cup Fault(Accepted(p[1]), "printed text is rejected")
                   \cup Fault(p[1].info = q.info, "printed info")),
      back |-> IF Panicked(x.back) THEN {"panic"} ELSE
        Fault(x.back.circ.k = "ok", "printed text is rejected by the parser")
        \cup Fault(x.back.circ.k = "ok" =>
               \A i \in 1 .. Len(x.back.mods) :
                 \E j \in need : ms[j].n = x.back.mods[i].n /\ AlikeModule(x.back.mods[i], ms[j]), "parsing back yields another module")
        \cup Fault(x.back.circ.k = "ok" => x.back.circ.info = q.info, "info of the circuit")
        \cup Fault(x.back.circ.k = "ok" /\ (\A j \in need : ~HasRepr(ms[j].body)) => x.same, "parsing back yields another circuit")
        \cup Fault(x.back.circ.k = "ok" => x.stable, "a second round changes the circuit")
        \cup Fault(Len(p) > 1 /\ ok => SameModules(p[1].own, p[2].own) /\ p[1].info = p[2].info, "printing again changes the text's meaning")]

RtFaults(pr, q, x, p) ==
  IF ~x.printed THEN {"not printable"}
  ELSE LET f == PrintFaults(q, x, p) IN
       IF pr = "C08" THEN f.order ELSE IF pr = "C01" THEN f.order \cup f.same \cup f.back ELSE f.same \cup f.back

---------------------------------------------------------------------------
(* Streams.                                                                 *)
ReadFaults(q, x, p) ==
  LET good == IsUtf8(q.bytes) /\ (q.fail = <<>> \/ FALSE) IN
       IF ~good THEN Fault(x.c.k = "err", "failing stream or bad encoding accepted")
       ELSE Fault(x.c.k = x.p.k, "stream and buffer disagree")
            \cup Fault(x.c.k = "ok" => x.same /\ x.c.top = x.p.top /\ x.c.info = x.p.info, "stream and buffer disagree")
            \cup (IF Len(p) = 0 THEN {}
                  ELSE Fault(x.c.k = (IF Accepted(p[1]) THEN "ok" ELSE "err"), "text accepted or rejected")
                       \cup Fault(Accepted(p[1]) /\ x.c.k = "ok" => SameModules(x.mods, p[1].own) /\ x.c.top = TopFirst(p[1]), "meaning"))

---------------------------------------------------------------------------
(* Types.                                                                   *)
One(x) == IF Len(x) = 0 THEN NoType ELSE OkType(x[1])
SameRes(x, m) == IF m.ok THEN x.ok /\ x.v = m.v ELSE ~x.ok

TypeFaults(q, x, i) ==                   \* of the i-th type alone
  LET t == q.ts[i]  y == x.one[i]  ot == Orient(t, FALSE)  of == Orient(t, TRUE)
      flds == IF t.t = "bundle" THEN <<t.f>> ELSE <<>>
  IN Fault(y.t = t, "a value reads back differently from how it was built")
     \cup Fault(y.passive = Passive(t), "passive")
     \cup Fault(y.o = ot, "orientation")
     \cup Fault(y.of = of, "orientation of the flipped type")
     \cup Fault(y.onf = OFlipped(ot), "flipping")
     \cup Fault(y.off = ot, "flipping twice")
     \cup Fault(y.opassive = OPassive(ot), "passive")
     \cup Fault(y.ofpassive = OPassive(of), "passive")
     \cup Fault(y.ground = IF IsGround(t) THEN <<t>> ELSE <<>>, "ground type")
     \cup Fault(y.oground = IF IsGround(t) THEN <<t>> ELSE <<>>, "ground type")
     \cup Fault(y.base = IF t.t = "vec" THEN <<t.b>> ELSE <<>>, "vector base")
     \cup Fault(y.vec = IF t.t = "vec" THEN <<[b |-> t.b, n |-> t.n]>> ELSE <<>>, "vector")
     \cup Fault(y.fields = flds, "fields")
     \cup Fault(\A j \in 1 .. Len(q.names) :
                  y.get[j] = IF FieldIdx(t, q.names[j]) = 0 THEN <<>> ELSE <<t.f[FieldIdx(t, q.names[j])]>>, "field by name")

EqFaults(q, x, j) ==
  LET a == q.ts[q.pairs[j][1]]  b == q.ts[q.pairs[j][2]]  y == x.pairs[j] IN
  Fault(y.eq = TypeEq(a, b), "equivalence")
  \cup Fault(y.weak = WeakEq(a, b), "weak equivalence")
  \cup Fault(y.oeq = WeakEq(a, b), "equivalence of oriented types")
  \cup Fault(y.oeqf = OEq(OFlipped(Orient(a, FALSE)), Orient(b, FALSE)), "equivalence of flipped types")

MergeFaults(q, x, j) ==
  LET a == q.ts[q.pairs[j][1]]  b == q.ts[q.pairs[j][2]]  y == x.pairs[j] IN
  Fault(SameRes(y.max, Merge(a, b)), "merging")
  \cup Fault(SameRes(y.min, MergeFn("min", a, b)), "combining by the minimum")
  \cup Fault(SameRes(y.sum, MergeFn("sum", a, b)), "combining by the sum")

TypesAt(pr, q, x, i) ==
  (IF i <= Len(q.ts) /\ pr = "C09" THEN TypeFaults(q, x, i) ELSE {})
       \cup (IF i > Len(q.pairs) THEN {} ELSE IF pr = "C09" THEN EqFaults(q, x, i) ELSE MergeFaults(q, x, i))

FmaxFaults(q, x) ==
  Fault(\A i \in 1 .. Len(q.xs) : x[i] = FixedMax(q.xs[i][1], q.xs[i][2], q.xs[i][3], q.xs[i][4]), "merging fixed-point widths")

AddrFaults(q, x) ==
  Fault(\A i \in 1 .. Len(q.xs) : x[i] = AddrWidth(q.xs[i]), "address width")

OrientFaults(x) ==
  LET os == <<FALSE, TRUE>>  fs == <<"source", "sink", "duplex">> IN
  Fault(x.oo = <<FALSE, TRUE, TRUE, FALSE>>, "composing orientations")
  \cup Fault(x.fo = [i \in 1 .. 6 |-> LET f == fs[((i - 1) \div 2) + 1] IN IF i % 2 = 0 THEN Turn(f) ELSE f], "flow and orientation")
  \cup Fault(x.def = FALSE, "default orientation")
  \cup Fault(x.src = <<TRUE, FALSE, TRUE>> /\ x.snk = <<FALSE, TRUE, TRUE>>, "sources and sinks")

---------------------------------------------------------------------------
(* Expressions.                                                             *)
InSeq(s, e) == \E i \in 1 .. Len(s) : s[i] = e

TypingFaults(env, e, y) ==
  LET t == TypeOf(env, e) IN
  CASE t.k = "ok" -> Fault(y.ty.k = "ok", "an expression is not typed") \cup Fault(y.ty.k = "ok" => y.ty.v = t.v, "type")
    [] t.k = "err" -> Fault(y.ty.k = "err", "an ill-typed expression has a type")
         \cup Fault(y.ty.k = "err" => InSeq(AllSub(e), y.ty.b), "error names no part of the expression")
         \cup Fault(y.ty.k = "err" /\ InSeq(AllSub(e), y.ty.b) => TypeOf(env, y.ty.b).k # "ok", "error names a part with a type")
    [] OTHER -> {}

FlowFaults(env, e, y) ==
  LET f == FlowOf(env, e) IN
  Fault(y.flow.k # "none" => /\ y.flow.src = (y.flow.k \in {"source", "duplex"})
                             /\ y.flow.snk = (y.flow.k \in {"sink", "duplex"}), "source or sink")
  \cup (CASE f = "any" -> {}
          [] f = "none" -> Fault(y.flow.k = "none", "flow of nothing")
               \cup Fault(y.flow.k = "none" => InSeq(AllSub(e), y.flow.b), "error names no part of the expression")
          [] OTHER -> Fault(y.flow.k = f, "flow"))

RefFaults(env, e, y) ==
  LET rs_ == TLCEval(Refs(e))
      want == TLCEval([i \in 1 .. Len(rs_) |-> rs_[i].d])
      ids == TLCEval(ToSet(want) \cup ToSet(y.refs))
      cnt(s, d) == Cardinality({i \in 1 .. Len(s) : s[i] = d})
  IN Fault(\A d \in ids : cnt(want, d) = cnt(y.refs, d), "references")
     \cup Fault(e.e = "op" => y.subs = e.x, "operands")

ExprAt(pr, q, x, i) ==
  IF i > Len(q.xs) \/ i > Len(x) THEN {}
  ELSE LET e == q.xs[i]  y == x[i] IN
       IF Panicked(y) THEN {"panic: " \o y.panic}
       ELSE Fault(y.x = e, "a value reads back differently from how it was built")
            \cup (CASE pr \in {"C11", "C12", "C10"} -> TypingFaults(q.env, e, y)
                    [] pr = "C13" -> FlowFaults(q.env, e, y)
                    [] pr = "C18" -> RefFaults(q.env, e, y))

EntAt(pr, q, x, i) ==
  IF i > Len(q.env.decls) \/ i > Len(x) THEN {}
  ELSE LET d == q.env.decls[i]  y == x[i]  t == EntType(q.env, d)
           same(z) == CASE t.k = "ok" -> z.k = "ok" /\ z.v = t.v [] t.k = "err" -> z.k = "err" [] OTHER -> TRUE
       IN IF pr = "C13" THEN Fault(y.flow = EntFlow(d), "flow of an entity") \cup Fault(y.oflow = EntFlow(d), "flow of an entity")
          ELSE Fault(y.name = d.n, "name")
               \cup Fault(y.decl = (d.k # "port"), "declarable")
               \cup Fault(same(y.ty), "type of an entity") \cup Fault(same(y.own), "type of an entity")

HistFaults(x) ==                         \* the same inputs in other orders and at the same time
  Fault(x.rev, "outcome depends on what was parsed before")
  \cup Fault(x.par, "outcome depends on what other threads do")
  \cup Fault(x.buf, "outcome depends on where the text is")

---------------------------------------------------------------------------
(* Traversals.                                                              *)
RECURSIVE DeclsOf(_)                     \* entities declared by statements
DeclsOf(b) ==
  IF Len(b) = 0 THEN <<>>
  ELSE (CASE b[1].s = "decl" -> <<b[1].ent>>
          [] b[1].s = "when" -> DeclsOf(b[1].t) \o DeclsOf(b[1].f)
          [] OTHER -> <<>>) \o DeclsOf(Tail(b))
RECURSIVE Preorder(_)
Preorder(b) ==
  IF Len(b) = 0 THEN <<>>
  ELSE <<b[1]>> \o (IF b[1].s = "when" THEN Preorder(b[1].t) \o Preorder(b[1].f) ELSE <<>>) \o Preorder(Tail(b))
SameBag(a, b) == \/ a = b
                 \/ /\ Len(a) = Len(b)
                    /\ \A z \in ToSet(a) : Cardinality({i \in 1 .. Len(a) : a[i] = z}) = Cardinality({i \in 1 .. Len(b) : b[i] = z})

TravAt(q, x, i) ==
  IF i > Len(q.mods) \/ i > Len(x) THEN {}
  ELSE LET m == q.mods[i]  y == x[i]
           all == TLCEval(m.ports \o DeclsOf(m.body))
           id(e) == FirstEqual(all, e)
           pre == TLCEval(Preorder(m.body))
           insts(b) == SelectSeq(DeclsOf(b), LAMBDA e : e.k = "inst")
       IN Fault(Len(y.stmts) = Len(pre), "statements")
          \cup UNION { LET ds == TLCEval(DeclsOf(<<pre[j]>>))  is == TLCEval(insts(<<pre[j]>>))  z == y.stmts[j]
                           ids == TLCEval([n \in 1 .. Len(ds) |-> id(ds[n])]) IN
                       Fault(SameBag(z.decls, ids), "declarations of a statement")
                       \cup Fault(SameBag(z.insts, [n \in 1 .. Len(is) |-> is[n].n]), "instances of a statement")
                       \cup Fault(SameBag(z.of, [n \in 1 .. Len(is) |-> is[n].mi]), "instantiated modules")
                       : j \in 1 .. (IF Len(y.stmts) < Len(pre) THEN Len(y.stmts) ELSE Len(pre)) }
          \cup Fault(SameBag(y.refd, InstIds(m.body)), "modules referenced")
          \cup Fault(\A j \in 1 .. Len(q.names) :
                       y.byname[j] = IF \E n \in 1 .. Len(m.ports) : m.ports[n].n = q.names[j] THEN <<q.names[j]>> ELSE <<>>,
                     "port by name")

---------------------------------------------------------------------------
(* Parts on their own.                                                      *)
PartAt(q, x, i, t, s) ==
  IF i > Len(q.xs) \/ i > Len(x) THEN {}
  ELSE LET kd == q.xs[i].k  d == q.xs[i].d  y == x[i] IN
       IF Panicked(y) THEN {"panic: " \o y.panic}
       ELSE IF ~y.shown THEN {"not printable"}
       ELSE LET r == ReadPart(t, kd, d, s) IN
            Fault(r.ok, "what is printed is no " \o kd)
            \cup Fault(r.ok => At(t, Sp(t, r.p)) = "", "something is printed behind it")
            \cup Fault(r.ok => CASE kd = "param" -> SameValue(r.v, d)
                                 [] kd = "memport" -> r.v = [key |-> KeyOf(d.d), v |-> d.n]
                                 [] kd \in {"dir", "dirkw", "ruw", "ruwkw", "smemkw", "modkw"} -> TRUE
                                 [] OTHER -> r.v = d, "what is printed says something else")

PairAt(q, x, i) ==
  IF i > Len(q.xs) \/ i > Len(x) THEN {}
  ELSE LET e == q.xs[i]  y == x[i] IN
       IF Panicked(y) THEN {"panic: " \o y.panic}
       ELSE LET w == SamePart(e.k, e.a, e.b) IN
            Fault(w => y.eq /\ y.qe, "equal parts compare unequal: " \o e.k)
            \cup Fault(~w => ~y.eq /\ ~y.qe, "different parts compare equal: " \o e.k)
            \cup Fault(y.ne = ~w, "inequality is not the opposite of equality")
            \cup Fault(y.self, "a copy differs from the original")

(* Printing into targets which refuse. ps is what the target saw; q.cuts[k] *)
(* is its capacity.                                                         *)
SinkAt(q, x, i) ==
  IF ~x.full.shown THEN {"not printable"}
  ELSE Fault(x.again, "printing again yields something else")
       \cup (IF i > Len(q.cuts) THEN {}
             ELSE IF Panicked(x.runs[i]) THEN {"panic: " \o x.runs[i].panic}
             ELSE LET y == x.runs[i]  f == SinkAfter(NewSink, y.events, 1) IN
                  Fault(AnswerOk(f, y.ok), IF f.refused THEN "refusal is not reported" ELSE "failure without a refusal")
                  \cup Fault(QuietOk(f), "printing goes on behind a refusal")
                  \cup Fault(PrefixOk(f, x.full.t) /\ WholeOk(f, x.full.t), "something else is printed"))

---------------------------------------------------------------------------
(* Contexts. ps is the context, k the next step.                            *)
CtxInit(q) ==
  LET n == Len(q.init)
      b[i \in 0 .. n] == IF i = 0 THEN <<>> ELSE Bind(b[i - 1], q.env.decls[q.init[i]].n, q.init[i])
  IN NewTop(b[n])
CanonEnt(q, i) == IF i = 0 THEN 0 ELSE FirstEqual(q.env.decls, q.env.decls[i])
CanonMem(q, i) == IF i = 0 THEN 0 ELSE FirstEqual(q.env.smems, q.env.smems[i])
ModIdx(q, n) == LET is == {i \in 1 .. Len(q.env.mods) : q.env.mods[i].n = n}
                IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j

CtxStep(q, c, st) ==
  CASE st.a = "ent" -> AddEnt(c, q.env.decls[st.i].n, st.i)
    [] st.a = "mem" -> AddMem(c, q.env.smems[st.i].n, st.i)
    [] st.a = "push" -> PushLevel(c)
    [] st.a = "pop" -> PopLevel(c)
    [] OTHER -> c
CtxFaults(q, c, st, y) ==
  CASE st.a = "lent" -> Fault(y = CanonEnt(q, Seek(c, "ent", st.n)), "entity looked up")
    [] st.a = "lmem" -> Fault(y = CanonMem(q, Seek(c, "mem", st.n)), "memory looked up")
    [] st.a = "lmod" -> Fault(y = ModIdx(q, st.n), "module looked up")
    [] OTHER -> {}

---------------------------------------------------------------------------
(* Consumers. ps is the consumer.                                           *)
ModNames(q) == [i \in 1 .. Len(q.mods) |-> q.mods[i].n]
ConsStep(q, c, a) == IF a = "next" THEN Advance1(c, ModNames(q)) ELSE IF a = "into" THEN [c EXCEPT !.live = FALSE] ELSE c
ConsOffer(q, i) == IF i = 0 THEN <<>> ELSE <<[top |-> i, info |-> q.info]>>
ConsFaults(q, c, a, y) ==
  CASE a = "next" ->
         LET i == NextItem(c) IN
         IF i = -1 THEN Fault(y.r = "none", "consumer goes on")
         ELSE IF i = 0 THEN Fault(y.r = "err", "error is swallowed")
         ELSE Fault(y.r = "ok", "module is swallowed") \cup Fault(y.r = "ok" => y.m = i, "another module is passed")
    [] a = "circuit" -> Fault(y.c = ConsOffer(q, Offers(c)), "circuit offered")
    [] a = "into" -> Fault(y.c = ConsOffer(q, Drain(c, ModNames(q))), "circuit returned")

---------------------------------------------------------------------------
(* Iterators with additions. ps is the parser.                              *)
TabCanon(p, i) == IF i <= 0 \/ i > Len(p.mods) THEN i ELSE FirstEqual(p.mods, p.mods[i])
ModsFaults(q, y, grown, failed, after, st) ==
  LET tab(n) == IF n \in DOMAIN after.tab THEN after.tab[n] ELSE 0 IN
  (CASE st.a = "add" -> Fault(y.r.k = "added", "a value reads back differently from how it was built")
     [] failed -> Fault(y.r.k = "err", "malformed module is not reported")
     [] grown -> Fault(y.r.k = "ok", "module is not yielded")
          \cup Fault(y.r.k = "ok" => SameModule(y.r.m, after.own[Len(after.own)]), "another module is yielded")
     [] OTHER -> Fault(y.r.k = "none", "something is yielded behind the end"))
  \cup Fault(\A i \in 1 .. Len(q.names) : TabCanon(after, y.tab[i]) = tab(q.names[i]), "module looked up")

---------------------------------------------------------------------------
(* Behaviour. k is the number of the next step, 0 if the observation is     *)
(* replayed completely.                                                     *)
TextOps == {"parse", "layout", "shift", "rt", "read", "origin"}
ListOps == {"types", "exprs", "ents", "trav", "parts", "pairs", "sink"}
StepOps == {"ctx", "cons", "build"}
OnceOps == {"fmax", "addrw", "orient", "deep", "hist"}

MaxOf(a, b) == IF a > b THEN a ELSE b
ListLen(ob) ==
  CASE ob.op = "types" -> MaxOf(Len(ob.q.ts), Len(ob.q.pairs))
    [] ob.op = "exprs" -> Len(ob.q.xs)
    [] ob.op = "ents" -> Len(ob.q.env.decls)
    [] ob.op = "trav" -> Len(ob.q.mods)
    [] ob.op \in {"parts", "pairs"} -> Len(ob.q.xs)
    [] ob.op = "sink" -> Len(ob.q.cuts)

Nothing == [ph |-> "none"]
StartState(ob) ==
  CASE ob.op \in {"mods", "origin"} -> InitModules
    [] ob.op \in TextOps -> InitCircuit
    [] ob.op = "ctx" -> CtxInit(ob.q)
    [] ob.op = "parts" -> EnvScope(ob.q.env)
    [] ob.op = "cons" -> NewConsumer(ob.q.items, ob.q.top)
    [] OTHER -> Nothing

Init == /\ o \in 1 .. Len(Obs)
        /\ k = 1 /\ ps = StartState(Obs[o]) /\ rs = <<>> /\ bad = {}

Report(b) == IF b = {} THEN TRUE
             ELSE PrintT("BAD " \o ToJson([id |-> Obs[o].id, bad |-> b]))
Finish(b) == /\ k' = 0 /\ bad' = b /\ ps' = Nothing /\ rs' = <<>> /\ UNCHANGED o /\ Report(b)

(* Run the parser over the k-th text.                                       *)
ReadLine == /\ Obs[o].op \in TextOps /\ k > 0 /\ k <= Len(Obs[o].tx) /\ ps.ph # "done"
            /\ ps' = Step(ps, Texts[o][k])
            /\ UNCHANGED <<o, k, rs, bad>>
NextText == /\ Obs[o].op \in TextOps /\ k > 0 /\ k <= Len(Obs[o].tx) /\ ps.ph = "done"
            /\ rs' = Append(rs, ps) /\ k' = k + 1 /\ ps' = StartState(Obs[o])
            /\ UNCHANGED <<o, bad>>
JudgeTexts ==
  /\ Obs[o].op \in TextOps /\ k = Len(Obs[o].tx) + 1
  /\ LET ob == Obs[o] IN
     Finish(CASE ob.op = "parse" -> ParseFaults(ob.prop, ob.r, rs[1], Texts[o][1])
              [] ob.op = "layout" ->
                   IF ~LayoutSpec(ob.q, rs) THEN {"harness: layout"}
                   ELSE LayoutFaults(ob.r, rs)
              [] ob.op = "shift" -> ShiftFaults(ob.q, ob.r) \cup
                   UNION {IF Panicked(ob.r[i]) THEN {"panic"} ELSE LineFaults(ob.r[i], rs[i], Texts[o][i]) : i \in 1 .. Len(rs)}
              [] ob.op = "origin" -> OriginFaults(ob.r, rs[1], Texts[o][1], Texts[o][2])
              [] ob.op = "rt" -> RtFaults(ob.prop, ob.q, ob.r, rs)
              [] ob.op = "read" -> ReadFaults(ob.q, ob.r, rs))

JudgeItem ==                             \* items which do not depend on each other
  /\ Obs[o].op \in ListOps /\ k > 0
  /\ LET ob == Obs[o]
         b == bad \cup (CASE ob.op = "types" -> TypesAt(ob.prop, ob.q, ob.r, k)
                          [] ob.op = "exprs" -> ExprAt(ob.prop, ob.q, ob.r, k)
                          [] ob.op = "ents" -> EntAt(ob.prop, ob.q, ob.r, k)
                          [] ob.op = "trav" -> TravAt(ob.q, ob.r, k)
                          [] ob.op = "parts" -> IF k > Len(ob.tx) THEN {} ELSE PartAt(ob.q, ob.r, k, Texts[o][k], ps)
                          [] ob.op = "pairs" -> PairAt(ob.q, ob.r, k)
                          [] ob.op = "sink" -> SinkAt(ob.q, ob.r, k))
     IN IF k >= ListLen(ob) THEN Finish(b)
        ELSE k' = k + 1 /\ bad' = b /\ UNCHANGED <<o, ps, rs>>

JudgeStep ==                             \* histories
  /\ Obs[o].op \in StepOps /\ k > 0
  /\ LET ob == Obs[o] IN
     IF k > Len(ob.q.steps) THEN Finish(bad)
     ELSE LET st == ob.q.steps[k]
              y == ob.r[k]
              nx == CASE ob.op = "ctx" -> CtxStep(ob.q, ps, st)
                      [] ob.op = "cons" -> ConsStep(ob.q, ps, st)
                      [] ob.op = "build" -> BuildStep(ps, st)
              f == CASE ob.op = "ctx" -> CtxFaults(ob.q, ps, st, y)
                     [] ob.op = "cons" -> ConsFaults(ob.q, ps, st, y)
                     [] ob.op = "build" -> Fault(y = Shown(nx), "after " \o st.a)
          IN k' = k + 1 /\ ps' = nx /\ bad' = bad \cup f /\ UNCHANGED <<o, rs>>

(* A step of the iterator takes several steps of the parser; rs[1] is the   *)
(* number of modules known when it began, rs[2] whether it had failed.      *)
Began == rs # <<>>
JudgeMods ==
  /\ Obs[o].op = "mods" /\ k > 0
  /\ LET ob == Obs[o] IN
     IF k > Len(ob.q.steps) THEN Finish(bad)
     ELSE LET st == ob.q.steps[k]  y == ob.r[k] IN
          IF st.a = "add" THEN
            LET nx == AddModule(ps, st.m) IN
            /\ k' = k + 1 /\ ps' = nx /\ bad' = bad \cup ModsFaults(ob.q, y, FALSE, FALSE, nx, st)
            /\ UNCHANGED <<o, rs>>
          ELSE IF ~Began THEN rs' = <<Len(ps.own), ps.ph = "done">> /\ UNCHANGED <<o, k, ps, bad>>
          ELSE IF ps.ph = "done" \/ Len(ps.own) > rs[1] THEN
            /\ k' = k + 1 /\ rs' = <<>>
            /\ bad' = bad \cup ModsFaults(ob.q, y, Len(ps.own) > rs[1], ps.err /\ ~rs[2], ps, st)
            /\ UNCHANGED <<o, ps>>
          ELSE ps' = Step(ps, Texts[o][1]) /\ UNCHANGED <<o, k, rs, bad>>

JudgeOnce ==
  /\ Obs[o].op \in OnceOps /\ k > 0
  /\ LET ob == Obs[o] IN
     Finish(CASE ob.op = "fmax" -> FmaxFaults(ob.q, ob.r)
                   [] ob.op = "addrw" -> AddrFaults(ob.q, ob.r)
                   [] ob.op = "orient" -> OrientFaults(ob.r)
                   [] ob.op = "deep" -> {}
                   [] ob.op = "hist" -> HistFaults(ob.r))

JudgePanic == Obs[o].pk # "" /\ k > 0 /\ Finish({"panic: " \o Obs[o].pk})

Next == IF Obs[o].pk # "" THEN JudgePanic ELSE
        ReadLine \/ NextText \/ JudgeTexts \/ JudgeItem \/ JudgeStep \/ JudgeMods \/ JudgeOnce
Spec == Init /\ [][Next]_vars

(* What holds of the parser's states while it reads observed texts.         *)
IsParser == k > 0 /\ Obs[o].op \in TextOps \cup {"mods"}
Nesting == IsParser => NestingOk(ps)
Scoping == IsParser => ScopeOk(ps)
=============================================================================
