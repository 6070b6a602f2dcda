------------------------------ MODULE FWriter ------------------------------
(* Writing: a text for every type, expression, declaration, statement and   *)
(* circuit. It is one of many the grammar allows; layout and escapes are    *)
(* the plainest possible.                                                   *)
EXTENDS FGrammar

RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)
N(i) == ToString(i)

---------------------------------------------------------------------------
(* Text within delimiters.                                                  *)
EscapedCh(c, delim) == IF c = LF THEN "\\n" ELSE IF c = TAB THEN "\\t" ELSE IF c \in {delim, BS} THEN BS \o c ELSE c
RECURSIVE WEsc(_, _)
WEsc(s, delim) == IF Len(s) = 0 THEN "" ELSE EscapedCh(Ch(s, 1), delim) \o WEsc(SubSeq(s, 2, Len(s)), delim)
RECURSIVE WFmt(_)
WFmt(s) == IF Len(s) = 0 THEN ""
           ELSE (IF Ch(s, 1) = "%" THEN "%%" ELSE EscapedCh(Ch(s, 1), DQ)) \o WFmt(SubSeq(s, 2, Len(s)))
WQuoted(s) == DQ \o WEsc(s, DQ) \o DQ
WInfo(i) == IF i = <<>> THEN "" ELSE " @[" \o WEsc(i[1], "]") \o "]"
WName(n) == IF n = <<>> THEN "" ELSE " : " \o n[1]

---------------------------------------------------------------------------
(* Types                                                                    *)
WW(w) == IF w = Unknown THEN "" ELSE "<" \o N(w) \o ">"
RECURSIVE WType(_)
WField(f) == (IF f.flip THEN "flip " ELSE "") \o f.n \o " : " \o WType(f.ty)
WType(t) ==
  CASE t.t = "uint" -> "UInt" \o WW(t.w)
    [] t.t = "sint" -> "SInt" \o WW(t.w)
    [] t.t = "analog" -> "Analog" \o WW(t.w)
    [] t.t = "fixed" -> "Fixed" \o WW(t.w) \o (IF t.p = <<>> THEN "" ELSE "<<" \o N(t.p[1]) \o ">>")
    [] t.t = "clock" -> "Clock"
    [] t.t = "reset" -> "Reset"
    [] t.t = "areset" -> "AsyncReset"
    [] t.t = "vec" -> WType(t.b) \o "[" \o N(t.n) \o "]"
    [] t.t = "bundle" -> "{" \o JoinWith(TLCEval([i \in 1 .. Len(t.f) |-> WField(t.f[i])]), ", ") \o "}"

---------------------------------------------------------------------------
(* Expressions                                                              *)
RECURSIVE WExpr(_)
WArgs(xs) == TLCEval([i \in 1 .. Len(xs) |-> WExpr(xs[i])])
WCall(f, as) == f \o "(" \o JoinWith(as, ", ") \o ")"
WExpr(e) ==
  CASE e.e = "uint" -> "UInt<" \o N(e.w) \o ">(\"h" \o e.v \o "\")"
    [] e.e = "sint" -> "SInt<" \o N(e.w) \o ">(\"h" \o e.v \o "\")"
    [] e.e = "ref" -> e.n
    [] e.e = "field" -> WExpr(e.b) \o "." \o e.n
    [] e.e = "index" -> WExpr(e.b) \o "[" \o N(e.i) \o "]"
    [] e.e = "access" -> WExpr(e.b) \o "[" \o WExpr(e.x) \o "]"
    [] e.e = "mux" -> WCall("mux", <<WExpr(e.s), WExpr(e.a), WExpr(e.b)>>)
    [] e.e = "validif" -> WCall("validif", <<WExpr(e.s), WExpr(e.v)>>)
    [] e.e = "op" -> WCall(e.op, WArgs(e.x) \o [i \in 1 .. Len(e.p) |-> N(e.p[i])])

---------------------------------------------------------------------------
(* Declarations. Memories take several lines, ind is their indentation.     *)
WMemPort(p) == (CASE p.d = "read" -> "reader" [] p.d = "write" -> "writer" [] p.d = "rdwr" -> "readwriter") \o " => " \o p.n
WPort(p) == p.dir \o " " \o p.n \o " : " \o WType(p.ty) \o WInfo(p.info)
WSMem(m) == m.kind \o " " \o m.n \o " : " \o WType(m.ty) \o (IF m.ruw = <<>> THEN "" ELSE ", " \o m.ruw[1])
WEnt(e) ==                               \* all on one line
  CASE e.k = "wire" -> "wire " \o e.n \o " : " \o WType(e.ty)
    [] e.k = "reg" -> "reg " \o e.n \o " : " \o WType(e.ty) \o ", " \o WExpr(e.clk)
         \o (IF e.rst = <<>> THEN "" ELSE " with : (reset => (" \o WExpr(e.rst[1].s) \o ", " \o WExpr(e.rst[1].v) \o "))")
    [] e.k = "node" -> "node " \o e.n \o " = " \o WExpr(e.v)
    [] e.k = "mport" -> e.dir \o " mport " \o e.n \o " = " \o e.m \o "[" \o WExpr(e.addr) \o "], " \o WExpr(e.clk)
    [] e.k = "inst" -> "inst " \o e.n \o " of " \o e.of

RECURSIVE Pad(_)
Pad(n) == IF n = 0 THEN "" ELSE " " \o Pad(n - 1)
Line(ind, s) == Pad(ind) \o s \o "\n"

RECURSIVE Lines(_, _)
Lines(ind, ss) == IF Len(ss) = 0 THEN "" ELSE Line(ind, ss[1]) \o Lines(ind, Tail(ss))

WMem(e, info, ind) ==
  Line(ind, "mem " \o e.n \o " :" \o WInfo(info))
  \o Lines(ind + 1, << "data-type => " \o WType(e.ty), "depth => " \o e.depth, "read-latency => " \o N(e.rl),
                       "write-latency => " \o N(e.wl) >>
                    \o [i \in 1 .. Len(e.ports) |-> WMemPort(e.ports[i])]
                    \o << "read-under-write => " \o e.ruw >>)

---------------------------------------------------------------------------
(* Statements. A conditional alone in an else branch may be written as a    *)
(* chain; both ways are used, depending on `chain`.                         *)
WMsg(m) == DQ \o JoinWith([i \in 1 .. Len(m) |-> IF "lit" \in DOMAIN m[i] THEN WFmt(m[i].lit) ELSE "%" \o m[i].f], "") \o DQ
MsgArgs(m) == LET vs == SelectSeq(m, LAMBDA x : "x" \in DOMAIN x) IN [i \in 1 .. Len(vs) |-> WExpr(vs[i].x)]

RECURSIVE WStmts(_, _, _), WWhen(_, _, _)
WWhen(s, ind, chain) ==
  "when " \o WExpr(s.c) \o " :" \o WInfo(s.info) \o "\n"
  \o WStmts(s.t, ind + 1, chain)
  \o (IF s.f = <<>> THEN ""
      ELSE IF chain /\ Len(s.f) = 1 /\ s.f[1].s = "when" THEN Pad(ind) \o "else " \o WWhen(s.f[1], ind, chain)
      ELSE Line(ind, "else :") \o WStmts(s.f, ind + 1, chain))
WStmt(s, ind, chain) ==
  CASE s.s = "decl" -> IF s.ent.k = "mem" THEN WMem(s.ent, s.info, ind) ELSE Line(ind, WEnt(s.ent) \o WInfo(s.info))
    [] s.s = "smem" -> Line(ind, WSMem(s.m) \o WInfo(s.info))
    [] s.s = "when" -> Pad(ind) \o WWhen(s, ind, chain)
    [] s.s = "skip" -> Line(ind, "skip" \o WInfo(s.info))
    [] s.s = "conn" -> Line(ind, WExpr(s.to) \o " <= " \o WExpr(s.from) \o WInfo(s.info))
    [] s.s = "pconn" -> Line(ind, WExpr(s.to) \o " <- " \o WExpr(s.from) \o WInfo(s.info))
    [] s.s = "inval" -> Line(ind, WExpr(s.x) \o " is invalid" \o WInfo(s.info))
    [] s.s = "attach" -> Line(ind, WCall("attach", WArgs(s.xs)) \o WInfo(s.info))
    [] s.s = "stop" -> Line(ind, WCall("stop", <<WExpr(s.clk), WExpr(s.c), s.code>>) \o WName(s.name) \o WInfo(s.info))
    [] s.s = "print" -> Line(ind, WCall("printf", <<WExpr(s.clk), WExpr(s.c), WMsg(s.msg)>> \o MsgArgs(s.msg))
                                  \o WName(s.name) \o WInfo(s.info))
WStmts(b, ind, chain) == IF Len(b) = 0 THEN "" ELSE WStmt(b[1], ind, chain) \o WStmts(Tail(b), ind, chain)

---------------------------------------------------------------------------
(* Modules and circuits                                                     *)
WParam(v) == IF "int" \in DOMAIN v THEN v.int
             ELSE IF "str" \in DOMAIN v THEN WQuoted(v.str)
             ELSE (IF v.dbl.neg THEN "-" ELSE "") \o v.dbl.d \o ".0E" \o N(v.dbl.x)
WModule(m, chain) ==
  Line(1, m.kind \o " " \o m.n \o " :" \o WInfo(m.info))
  \o Lines(2, [i \in 1 .. Len(m.ports) |-> WPort(m.ports[i])])
  \o WStmts(m.body, 2, chain)
  \o (IF m.defname = <<>> THEN "" ELSE Line(2, "defname = " \o m.defname[1]))
  \o Lines(2, [i \in 1 .. Len(m.params) |-> "parameter " \o m.params[i].k \o " = " \o WParam(m.params[i].v)])
RECURSIVE WModules(_, _)
WModules(ms, chain) == IF Len(ms) = 0 THEN "" ELSE WModule(ms[1], chain) \o WModules(Tail(ms), chain)
WCircuit(ms, top, info, chain) == "circuit " \o top \o " :" \o WInfo(info) \o "\n" \o WModules(ms, chain)
=============================================================================
