------------------------------ MODULE FParser -------------------------------
(* The parser as a state machine reading a text line by line.               *)
(*                                                                          *)
(* State:                                                                   *)
(*   ph      "header", "modules", "ports", "body", "ext" or "done"          *)
(*   p       position of the next line                                      *)
(*   name, info      what the header says                                   *)
(*   mind    indentation of modules, 0 until the first one was seen         *)
(*   mods    modules known so far, in the order they became known           *)
(*   tab     latest module of each name                                     *)
(*   cur     the module being read, inds the indentation of its lines (0 if *)
(*           not yet known)                                                 *)
(*   decls, smems    declarations of the module, in textual order           *)
(*   scope   what the names refer to (FGrammar)                             *)
(*   st      open blocks, outermost first. Each block has the indentation   *)
(*           of its header (base), of its lines (lock, 0 until known), the  *)
(*           position of its header (at) and what was read so far.          *)
(*   err     whether the text was rejected, ep at which position and eps    *)
(*           at which positions blocks affected by that begin               *)
EXTENDS FGrammar

NoMod == [n |-> "", kind |-> "", info |-> <<>>, ports |-> <<>>, body |-> <<>>,
          defname |-> <<>>, params |-> <<>>]

(* A parser for a sequence of modules behind position p, knowing `mods`.    *)
FirstEqual(s, x) ==
  IF \E i \in 1 .. Len(s) : s[i] = x
  THEN CHOOSE i \in 1 .. Len(s) : s[i] = x /\ \A j \in 1 .. i - 1 : s[j] # x ELSE 0

InitAt(ph, p) ==
  [ph |-> ph, p |-> p, name |-> "", info |-> <<>>, mind |-> 0, mods |-> <<>>,
   tab |-> <<>>, own |-> <<>>, cur |-> NoMod, inds |-> 0, decls |-> <<>>, smems |-> <<>>,
   scope |-> EmptyScope, st |-> <<>>, err |-> FALSE, ep |-> 0, eps |-> {}, hp |-> 0]
InitCircuit == InitAt("header", 1)
InitModules == InitAt("modules", 1)

Known2(ps, m) ==                         \* make a module known
  LET ms == Append(ps.mods, m) IN
  [ps EXCEPT !.mods = ms, !.tab = Bind(@, m.n, FirstEqual(ms, m))]
AddModule(ps, m) == Known2(ps, m)

Reject(ps, at) ==
  [ps EXCEPT !.ph = "done", !.err = TRUE, !.ep = at,
             !.eps = {ps.st[i].at : i \in 1 .. Len(ps.st)} \cup {ps.hp}]

---------------------------------------------------------------------------
(* Declarations become visible to everything behind them in the module.     *)
Declare(ps, e) ==
  LET id == FirstEqual(Append(ps.decls, e), e) IN
  [ps EXCEPT !.decls = Append(@, e), !.scope.ent = Bind(@, e.n, id)]
DeclareMem(ps, m) ==
  LET id == FirstEqual(Append(ps.smems, m), m) IN
  [ps EXCEPT !.smems = Append(@, m), !.scope.mem = Bind(@, m.n, id)]

Top(ps) == ps.st[Len(ps.st)]
Pop(ps) == [ps EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
Push(ps, fr) == [ps EXCEPT !.st = Append(@, fr)]

Block(k, base, at) == [k |-> k, base |-> base, lock |-> 0, at |-> at, out |-> <<>>,
                       head |-> <<>>, then |-> <<>>]

WhenStmt(fr, then, else) ==
  [s |-> "when", c |-> fr.head[1].c, t |-> then, f |-> else, info |-> fr.head[1].info]

(* Hand a complete statement to the innermost block. A conditional behind   *)
(* an else completes the outer conditional, too.                            *)
RECURSIVE Deliver(_, _)
Deliver(ps, s) ==
  LET fr == Top(ps) IN
  IF fr.k = "chain" THEN Deliver(Pop(ps), WhenStmt(fr, fr.then, <<s>>))
  ELSE [ps EXCEPT !.st[Len(ps.st)].out = Append(@, s)]

(* Everything a memory's entries say; the last entry of a kind counts.      *)
LastOf(es, key) == LET is == {i \in 1 .. Len(es) : es[i].key = key} IN
  IF is = {} THEN <<>> ELSE << es[CHOOSE i \in is : \A j \in is : j <= i].v >>
Or(o, d) == IF o = <<>> THEN d ELSE o[1]
PortKeys == [reader |-> "read", writer |-> "write", readwriter |-> "rdwr"]
MemOf(name, es) ==
  LET ps == SelectSeq(es, LAMBDA e : e.key \in DOMAIN PortKeys)
  IN [k |-> "mem", n |-> name, ty |-> LastOf(es, "data-type")[1], depth |-> LastOf(es, "depth")[1],
      ports |-> [i \in 1 .. Len(ps) |-> [n |-> ps[i].v, d |-> PortKeys[ps[i].key]]],
      rl |-> Or(LastOf(es, "read-latency"), 0), wl |-> Or(LastOf(es, "write-latency"), 0),
      ruw |-> Or(LastOf(es, "read-under-write"), "undefined")]

(* Close the innermost block, other than by an else.                        *)
CloseTop(ps) ==
  LET fr == Top(ps)
      up == Pop(ps)
  IN CASE fr.k = "then" -> Deliver(up, WhenStmt(fr, fr.out, <<>>))
       [] fr.k = "else" -> Deliver(up, WhenStmt(fr, fr.then, fr.out))
       [] fr.k = "mem" ->
            IF LastOf(fr.out, "data-type") = <<>> \/ LastOf(fr.out, "depth") = <<>>
            THEN Reject(ps, fr.at)
            ELSE LET e == MemOf(fr.head[1].n, fr.out)
                 IN Deliver(Declare(up, e), [s |-> "decl", ent |-> e, info |-> fr.head[1].info])

---------------------------------------------------------------------------
(* The end of a module.                                                     *)
EndModule(ps) ==
  LET m == [ps.cur EXCEPT !.body = IF ps.st = <<>> THEN <<>> ELSE ps.st[1].out] IN
  [Known2(ps, m) EXCEPT !.ph = "modules", !.own = Append(@, m), !.cur = NoMod, !.inds = 0,
     !.decls = <<>>, !.smems = <<>>, !.scope = EmptyScope, !.st = <<>>, !.hp = 0]

(* A line of n spaces belongs to a block if it has the block's indentation, *)
(* which the first line decides: anything deeper than the block's header.   *)
Accepts(base, lock, n) == IF lock = 0 THEN n > base ELSE n = lock

(* A statement's line, p behind the indentation.                            *)
BodyLine(ps, t, p, n) ==
  LET r == StmtLine(t, p, ps.scope)
      l == [ps EXCEPT !.st[Len(ps.st)].lock = n]
      nx == [l EXCEPT !.p = r.p]
  IN IF ~r.ok THEN Reject(ps, ps.p)
     ELSE CASE r.v.h = "when" ->
                 Push(nx, [Block("then", n, ps.p) EXCEPT !.head = <<[c |-> r.v.c, info |-> r.v.info]>>])
            [] r.v.h = "mem" ->
                 Push(nx, [Block("mem", n, ps.p) EXCEPT !.head = <<[n |-> r.v.n, info |-> r.v.info]>>])
            [] OTHER ->
                 LET s == r.v.v
                     d == CASE s.s = "decl" -> Declare(nx, s.ent)
                            [] s.s = "smem" -> DeclareMem(nx, s.m)
                            [] OTHER -> nx
                 IN Deliver(d, s)

EntryLine(ps, t, p, n) ==
  LET r == MemEntry(t, p) IN
  IF ~r.ok THEN Reject(ps, ps.p)
  ELSE [ps EXCEPT !.st[Len(ps.st)].lock = n, !.st[Len(ps.st)].out = Append(@, r.v), !.p = r.p]

(* An else of the innermost conditional, p behind the keyword.              *)
ElseLine(ps, t, p) ==
  LET fr == Top(ps)
      c  == SOp1(t, p, ":")
      e  == IF c.ok THEN InfoEnd(t, c.p) ELSE Fail
      w  == SKw(t, p, "when")
      h  == IF e.ok \/ ~w.ok THEN Fail ELSE WhenHead(t, w.p, ps.scope)
      up == Pop(ps)
      as(k) == [fr EXCEPT !.k = k, !.then = fr.out, !.out = <<>>, !.lock = 0]
  IN IF e.ok THEN Push([up EXCEPT !.p = e.p], as("else"))
     ELSE IF h.ok THEN Push(Push([up EXCEPT !.p = h.p], as("chain")),
                            [Block("then", fr.base, fr.at) EXCEPT !.head = <<[c |-> h.v.c, info |-> h.v.info]>>])
     ELSE Reject(ps, fr.at)

InBody(ps, t) ==
  LET n  == IF ps.p > t.n THEN 0 ELSE Spaces(t, ps.p)
      q  == ps.p + n
      fr == Top(ps)
  IN IF Accepts(fr.base, fr.lock, n)
     THEN (IF fr.k = "mem" THEN EntryLine(ps, t, q, n) ELSE BodyLine(ps, t, q, n))
     ELSE IF fr.k = "body"
     THEN (IF n > fr.base THEN Reject(ps, ps.p) ELSE EndModule(ps))
     ELSE IF fr.k = "then" /\ n = fr.base /\ Kw(t, q, "else").ok
     THEN ElseLine(ps, t, Kw(t, q, "else").p)
     ELSE CloseTop(ps)

---------------------------------------------------------------------------
(* Ports and the entries of external modules                                *)
ToBody(ps) ==
  IF ps.cur.kind = "extmodule" THEN [ps EXCEPT !.ph = "ext"]
  ELSE [ps EXCEPT !.ph = "body",
          !.st = <<[Block("body", ps.mind, ps.hp) EXCEPT !.lock = ps.inds]>>]

InPorts(ps, t) ==
  LET n == IF ps.p > t.n THEN 0 ELSE Spaces(t, ps.p)
      a == Accepts(ps.mind, ps.inds, n)
      l == IF a THEN [ps EXCEPT !.inds = n] ELSE ps
      r == IF a THEN PortLine(t, ps.p + n) ELSE Fail
  IN IF r.ok THEN [Declare(l, r.v) EXCEPT !.cur.ports = Append(@, r.v), !.p = r.p]
     ELSE ToBody(l)

SetParam(ps, kv) == Append(SelectSeq(ps, LAMBDA e : e.k # kv.k), kv)

InExt(ps, t) ==
  LET n == IF ps.p > t.n THEN 0 ELSE Spaces(t, ps.p)
      a == Accepts(ps.mind, ps.inds, n)
      l == IF a THEN [ps EXCEPT !.inds = n] ELSE ps
      d == IF a /\ ps.cur.defname = <<>> /\ ps.cur.params = <<>> THEN DefnameLine(t, ps.p + n) ELSE Fail
      r == IF a /\ ~d.ok THEN ParamLine(t, ps.p + n) ELSE Fail
  IN IF d.ok THEN [l EXCEPT !.cur.defname = <<d.v>>, !.p = d.p]
     ELSE IF r.ok THEN [l EXCEPT !.cur.params = SetParam(@, r.v), !.p = r.p]
     ELSE IF n > ps.mind THEN Reject(ps, ps.p)
     ELSE EndModule(ps)

---------------------------------------------------------------------------
InHeader(ps, t) ==
  LET r == CircuitLine(t, ps.p) IN
  IF r.ok THEN [ps EXCEPT !.ph = "modules", !.p = r.p, !.name = r.v.n, !.info = r.v.info]
  ELSE Reject(ps, MoreLineEnds(t, ps.p))

InModules(ps, t) ==
  IF ps.p > t.n THEN [ps EXCEPT !.ph = "done"]
  ELSE LET n == Spaces(t, ps.p)
           r == IF Accepts(0, ps.mind, n) THEN ModuleLine(t, ps.p + n) ELSE Fail
       IN IF ~r.ok THEN Reject(ps, ps.p)
          ELSE [ps EXCEPT !.ph = "ports", !.p = r.p, !.mind = n, !.hp = ps.p,
                  !.scope = [EmptyScope EXCEPT !.mod = ps.tab],
                  !.cur = [NoMod EXCEPT !.n = r.v.n, !.kind = r.v.kind, !.info = r.v.info]]

Step(ps, t) ==
  CASE ps.ph = "header" -> InHeader(ps, t)
    [] ps.ph = "modules" -> InModules(ps, t)
    [] ps.ph = "ports" -> InPorts(ps, t)
    [] ps.ph = "ext" -> InExt(ps, t)
    [] ps.ph = "body" -> InBody(ps, t)

RECURSIVE RunFrom(_, _)
RunFrom(ps, t) == IF ps.ph = "done" THEN ps ELSE RunFrom(Step(ps, t), t)
Parse(t) == RunFrom(InitCircuit, t)

---------------------------------------------------------------------------
(* What the text denotes as a whole.                                        *)
HeaderRead(ps) == ps.ph # "header" /\ ~(ps.err /\ ps.hp = 0 /\ ps.name = "")
TopIdx(ps) ==                            \* 0 if there is none
  LET is == {i \in 1 .. Len(ps.own) : ps.own[i].n = ps.name}
  IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
Accepted(ps) == ps.ph = "done" /\ ~ps.err /\ TopIdx(ps) # 0

LineOf(t, p) == 1 + Cardinality({i \in 1 .. (IF p > t.n THEN t.n ELSE p - 1) : t.c[i] = LF})

(* Texts in quotes and infos may go on behind an escaped line end, so that  *)
(* what begins at p reaches at most to the first line end not escaped.      *)
RECURSIVE StatementEnd(_, _)
StatementEnd(t, p) == IF p > t.n \/ (At(t, p) = LF /\ At(t, p - 1) # BS) THEN p ELSE StatementEnd(t, p + 1)

---------------------------------------------------------------------------
(* Invariants of every reachable state.                                     *)
RefsIn(s) ==                             \* references of a statement itself
  LET all(xs) == Concat([i \in 1 .. Len(xs) |-> Refs(xs[i])]) IN
  CASE s.s \in {"conn", "pconn"} -> Refs(s.to) \o Refs(s.from)
    [] s.s = "inval" -> Refs(s.x)
    [] s.s = "attach" -> all(s.xs)
    [] s.s = "when" -> Refs(s.c)
    [] s.s = "stop" -> Refs(s.clk) \o Refs(s.c)
    [] s.s = "print" -> Refs(s.clk) \o Refs(s.c)
         \o Concat([i \in 1 .. Len(s.msg) |-> IF "x" \in DOMAIN s.msg[i] THEN Refs(s.msg[i].x) ELSE <<>>])
    [] s.s = "decl" ->
         (CASE s.ent.k = "node" -> Refs(s.ent.v)
            [] s.ent.k = "reg" -> Refs(s.ent.clk) \o (IF s.ent.rst = <<>> THEN <<>>
                                     ELSE Refs(s.ent.rst[1].s) \o Refs(s.ent.rst[1].v))
            [] s.ent.k = "mport" -> Refs(s.ent.addr) \o Refs(s.ent.clk)
            [] OTHER -> <<>>)
    [] OTHER -> <<>>

(* Blocks nest strictly: deeper lines, later headers.                       *)
NestingOk(ps) ==
  /\ \A i \in 1 .. Len(ps.st) : LET f == ps.st[i] IN
       /\ f.lock # 0 => f.lock > f.base
       /\ i > 1 => \/ f.base = ps.st[i - 1].lock
                   \/ ps.st[i - 1].k = "chain" /\ f.base = ps.st[i - 1].base
       /\ i > 1 => f.at >= ps.st[i - 1].at
  /\ ps.ph = "body" => ps.st # <<>> /\ ps.st[1].k = "body"

(* Whatever was read refers to declarations made in front of it.            *)
ScopeOk(ps) ==
  /\ \A n \in DOMAIN ps.scope.ent : LET i == ps.scope.ent[n] IN
       i \in 1 .. Len(ps.decls) /\ ps.decls[i].n = n
  /\ \A n \in DOMAIN ps.scope.mem : LET i == ps.scope.mem[n] IN
       i \in 1 .. Len(ps.smems) /\ ps.smems[i].n = n
  /\ \A n \in DOMAIN ps.tab : ps.tab[n] \in 1 .. Len(ps.mods) /\ ps.mods[ps.tab[n]].n = n
  /\ \A i \in 1 .. Len(ps.st) : ps.st[i].k # "mem" =>
       \A j \in 1 .. Len(ps.st[i].out) : LET rs == RefsIn(ps.st[i].out[j]) IN
         \A k \in 1 .. Len(rs) : rs[k].d \in 1 .. Len(ps.decls) /\ ps.decls[rs[k].d].n = rs[k].n
=============================================================================
