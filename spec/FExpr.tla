------------------------------- MODULE FExpr -------------------------------
(* Expressions: operands, references, typing, data flow.                    *)
(*                                                                          *)
(* Expressions:                                                             *)
(*   [e: "uint"|"sint", v: hex string, w: width]   [e: "ref", n: name, d: id]*)
(*   [e: "field", b, n]  [e: "index", b, i]  [e: "access", b, x]            *)
(*   [e: "mux", s, a, b]  [e: "validif", s, v]                              *)
(*   [e: "op", op: name, x: operands, p: static arguments as written]       *)
(*                                                                          *)
(* Entities (declarations), numbered in textual order, ports first:         *)
(*   [k: "port", n, dir, ty, info] [k: "wire", n, ty]                       *)
(*   [k: "reg", n, ty, clk, rst: <<>> or <<[s, v]>>] [k: "node", n, v]      *)
(*   [k: "mem", n, ty, depth: digits, ports, rl, wl, ruw]                   *)
(*   [k: "mport", n, m: memory name, md: memory id, dir, addr, clk]         *)
(*   [k: "inst", n, of: module name, mi: module id]                         *)
(*                                                                          *)
(* An environment is [decls, smems, mods]: what ids refer to.               *)
EXTENDS FText, FTypes

Sub(e) ==                                   \* operands, in order
  CASE e.e = "field" -> <<e.b>>
    [] e.e = "index" -> <<e.b>>
    [] e.e = "access" -> <<e.b, e.x>>
    [] e.e = "mux" -> <<e.s, e.a, e.b>>
    [] e.e = "validif" -> <<e.s, e.v>>
    [] e.e = "op" -> e.x
    [] OTHER -> <<>>

RECURSIVE Concat(_)
Concat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE AllSub(_)                         \* the expression and all below
AllSub(e) == LET s == Sub(e) IN
  <<e>> \o Concat(TLCEval([i \in 1 .. Len(s) |-> AllSub(s[i])]))

RECURSIVE Refs(_)                           \* reference leaves, with repetition
Refs(e) == IF e.e = "ref" THEN <<e>>
  ELSE LET s == Sub(e) IN Concat(TLCEval([i \in 1 .. Len(s) |-> Refs(s[i])]))

---------------------------------------------------------------------------
(* Operation tables.                                                        *)
Binary == {"add","sub","mul","div","rem","lt","leq","gt","geq","eq","neq",
           "dshl","dshr","and","or","xor","cat"}
Unary  == {"asUInt","asSInt","asClock","asAsyncReset","cvt","neg","not","andr","orr","xorr"}
UnaryN == {"pad","shl","shr","head","tail","incp","decp"}      \* one u16
UnaryP == {"asFixed","setp"}                                   \* one i16
OpNames == Binary \cup Unary \cup UnaryN \cup UnaryP \cup {"bits"}

Compare == {"lt","leq","gt","geq","eq","neq"}
Reduce  == {"andr","orr","xorr"}
Bitwise == {"and","or","xor"}

---------------------------------------------------------------------------
(* Typing. A result is [k: "ok", v: type], [k: "err"] or, for operands that *)
(* FIRRTL forbids but nobody promises to reject, [k: "any"].                *)
TOk(ty) == [k |-> "ok", v |-> ty]
TErr    == [k |-> "err", v |-> Clock]
TAny    == [k |-> "any", v |-> Clock]

Inc(w) == IF w = Unknown THEN Unknown ELSE FitW(w + 1)
Pow2(n) == IF n > 16 THEN 100000 ELSE 2^n

Ints == {"uint", "sint"}
Nums == {"uint", "sint", "fixed"}

SumType(a, b) ==
  IF a.t \notin Nums \/ a.t # b.t THEN TErr
  ELSE IF a.t = "fixed" THEN
    TOk(IF FixedKnown(a) /\ FixedKnown(b)
        THEN Fixed(Inc(FixedMax(a.w, a.p[1], b.w, b.p[1])), <<Max(a.p[1], b.p[1])>>)
        ELSE Fixed(Unknown, <<>>))
  ELSE TOk([a EXCEPT !.w = Inc(MaxW(a.w, b.w))])

MulType(a, b) ==
  IF a.t \notin Nums \/ a.t # b.t THEN TErr
  ELSE IF a.t = "fixed" THEN
    TOk(Fixed(SumW(a.w, b.w), IF a.p = <<>> \/ b.p = <<>> THEN <<>> ELSE FitP(a.p[1] + b.p[1])))
  ELSE TOk([a EXCEPT !.w = SumW(a.w, b.w)])

PtPlus(p, n) == IF p = <<>> THEN <<>> ELSE FitP(p[1] + n)
WPlus(w, n) == IF w = Unknown THEN Unknown ELSE FitW(w + n)

(* All operands have ground types here.                                     *)
GroundOp(op, t, p) ==
  LET a == t[1] IN
  CASE op \in {"add", "sub"} -> SumType(a, t[2])
    [] op = "mul" -> MulType(a, t[2])
    [] op = "div" -> IF a.t \notin Ints THEN TErr
                     ELSE IF t[2].t # a.t THEN TAny
                     ELSE TOk(IF a.t = "sint" THEN SInt(Inc(a.w)) ELSE a)
    [] op = "rem" -> IF a.t # t[2].t THEN TErr
                     ELSE IF a.t \notin Ints THEN TAny
                     ELSE TOk([a EXCEPT !.w = MinW(a.w, t[2].w)])
    [] op \in Compare -> IF a.t = t[2].t /\ a.t \in Nums THEN TOk(UInt(1)) ELSE TAny
    [] op = "pad" -> IF a.t \in Nums THEN TOk(WithWidth(a, IF a.w = Unknown THEN Unknown ELSE Max(a.w, p[1])))
                     ELSE TAny
    [] op = "asUInt" -> TOk(UInt(WidthOf(a)))
    [] op = "asSInt" -> TOk(SInt(WidthOf(a)))
    [] op = "asFixed" -> TOk(Fixed(WidthOf(a), <<p[1]>>))
    [] op = "asClock" -> TOk(Clock)
    [] op = "asAsyncReset" -> TOk(AReset)
    [] op = "shl" -> IF a.t \in Nums THEN TOk(WithWidth(a, WPlus(a.w, p[1]))) ELSE TAny
    [] op = "shr" -> IF a.t \in Ints
                     THEN TOk([a EXCEPT !.w = IF @ = Unknown THEN @ ELSE Max(@ - p[1], 1)])
                     ELSE IF a.t # "fixed" THEN TErr
                     ELSE TOk(IF FixedKnown(a)
                              THEN Fixed(Max(Max(a.w - p[1], 0), Max(a.p[1], 1)), a.p)
                              ELSE Fixed(Unknown, <<>>))
    [] op = "dshl" -> IF a.t \notin Nums \/ t[2].t # "uint" THEN TAny
                      ELSE TOk(WithWidth(a,
                             IF a.w = Unknown \/ t[2].w = Unknown THEN Unknown
                             ELSE FitW(Pow2(t[2].w) - 1 + a.w)))
    [] op = "dshr" -> IF a.t \notin Nums \/ t[2].t # "uint" THEN TAny ELSE TOk(a)
    [] op = "cvt" -> IF a.t \notin Ints THEN TErr
                     ELSE TOk(IF a.t = "uint" THEN SInt(Inc(a.w)) ELSE a)
    [] op = "neg" -> IF a.t \in Ints THEN TOk(SInt(Inc(a.w))) ELSE TAny
    [] op = "not" -> IF a.t \in Ints THEN TOk(UInt(a.w)) ELSE TAny
    [] op \in Bitwise -> IF a.t \in Ints /\ t[2].t \in Ints THEN TOk(UInt(MaxW(a.w, t[2].w))) ELSE TAny
    [] op \in Reduce -> IF a.t \in Ints THEN TOk(UInt(1)) ELSE TAny
    [] op = "cat" -> IF a.t \in Ints /\ t[2].t \in Ints THEN TOk(UInt(SumW(a.w, t[2].w))) ELSE TAny
    [] op = "bits" -> IF a.t \notin Nums THEN TAny
                      ELSE TOk(UInt(IF p[1] < p[2] THEN Unknown ELSE FitW(p[1] - p[2] + 1)))
    [] op = "head" -> IF a.t \notin Nums THEN TAny ELSE TOk(UInt(p[1]))
    [] op = "tail" -> IF a.t \notin Nums THEN TAny
                      ELSE TOk(UInt(IF a.w = Unknown THEN Unknown ELSE FitW(a.w - p[1])))
    [] op = "incp" -> IF a.t # "fixed" THEN TErr ELSE TOk(Fixed(WPlus(a.w, p[1]), PtPlus(a.p, p[1])))
    [] op = "decp" -> IF a.t # "fixed" THEN TErr ELSE TOk(Fixed(WPlus(a.w, 0 - p[1]), PtPlus(a.p, 0 - p[1])))
    [] op = "setp" -> IF a.t # "fixed" THEN TErr
                      ELSE TOk(Fixed(IF FixedKnown(a) THEN FitW(a.w - a.p[1] + p[1]) ELSE Unknown, <<p[1]>>))

(* Operands whose type is promised to be looked at; a fault in another      *)
(* operand may or may not be noticed.                                       *)
Strict(op) == IF op \in Compare \cup Reduce THEN {} ELSE IF op \in {"div", "dshr"} THEN {1} ELSE {1, 2}

OpType(op, rs, p) ==                      \* rs: results of the operands
  LET bad(i) == rs[i].k = "err" \/ (rs[i].k = "ok" /\ ~IsGround(rs[i].v))
      any(i) == rs[i].k = "any"
      is == 1 .. Len(rs)
  IN IF \E i \in is : bad(i) /\ i \in Strict(op) /\ \A j \in is : ~any(j) THEN TErr
     ELSE IF \E i \in is : bad(i) \/ any(i) THEN TAny
     ELSE GroundOp(op, [i \in is |-> rs[i].v], p)

AddrWidth(dec) ==                         \* least w with 2^w >= dec
  LET h == ToHex(dec, 10) IN
  IF h = "0" THEN 0 ELSE IF IsPow2Hex(h) THEN BitLen(h) - 1 ELSE BitLen(h)

RECURSIVE TypeOf(_, _)
RECURSIVE EntType(_, _)
EntType(env, d) ==
  CASE d.k \in {"port", "wire", "reg"} -> TOk(d.ty)
    [] d.k = "node" -> TypeOf(env, d.v)
    [] d.k = "mem" -> TOk(MemType(d.ty, AddrWidth(d.depth), d.ports))
    [] d.k = "mport" -> LET m == env.smems[d.md] IN IF m.ty.t = "vec" THEN TOk(m.ty.b) ELSE TErr
    [] d.k = "inst" -> TOk(InstType(env.mods[d.mi].ports))

TypeOf(env, e) ==
  CASE e.e = "uint" -> TOk(UInt(e.w))
    [] e.e = "sint" -> TOk(SInt(e.w))
    [] e.e = "ref" -> EntType(env, env.decls[e.d])
    [] e.e = "field" ->
         LET b == TypeOf(env, e.b) IN
         IF b.k # "ok" THEN b
         ELSE LET i == FieldIdx(b.v, e.n) IN IF i = 0 THEN TErr ELSE TOk(b.v.f[i].ty)
    [] e.e \in {"index", "access"} ->
         LET b == TypeOf(env, e.b)
             x == IF e.e = "access" THEN TypeOf(env, e.x) ELSE TOk(UInt(1))
         IN IF b.k # "ok" THEN b
            ELSE IF b.v.t # "vec" THEN TErr
            ELSE IF x.k # "ok" \/ x.v.t # "uint" THEN TAny ELSE TOk(b.v.b)
    [] e.e = "mux" ->
         LET s == TypeOf(env, e.s)  a == TypeOf(env, e.a)  b == TypeOf(env, e.b) IN
         IF a.k = "any" \/ b.k = "any" THEN TAny
         ELSE IF a.k = "err" \/ b.k = "err" THEN TErr
         ELSE LET m == Merge(a.v, b.v) IN
              IF ~m.ok THEN TErr
              ELSE IF s.k # "ok" \/ s.v.t # "uint" THEN TAny
              ELSE TOk(m.v)
    [] e.e = "validif" ->
         LET s == TypeOf(env, e.s)  v == TypeOf(env, e.v) IN
         IF v.k # "ok" THEN v ELSE IF s.k # "ok" \/ s.v.t # "uint" THEN TAny ELSE v
    [] e.e = "op" -> OpType(e.op, TLCEval([i \in 1 .. Len(e.x) |-> TypeOf(env, e.x[i])]), e.p)

---------------------------------------------------------------------------
(* Data flow: "source", "sink", "duplex", "none" (reported) or "any".       *)
EntFlow(d) ==
  CASE d.k = "port" -> IF d.dir = "input" THEN "source" ELSE "sink"
    [] d.k \in {"wire", "reg"} -> "duplex"
    [] d.k \in {"node", "mem", "inst"} -> "source"
    [] d.k = "mport" -> CASE d.dir = "read" -> "source" [] d.dir = "write" -> "sink"
                          [] d.dir = "rdwr" -> "duplex" [] OTHER -> "none"

Turn(f) == CASE f = "source" -> "sink" [] f = "sink" -> "source" [] OTHER -> f

RECURSIVE FlowOf(_, _)
FlowOf(env, e) ==
  CASE e.e = "ref" -> EntFlow(env.decls[e.d])
    [] e.e = "field" ->
         LET f == FlowOf(env, e.b)  b == TypeOf(env, e.b) IN
         IF f = "none" \/ b.k = "err" THEN "none"
         ELSE IF f = "any" \/ b.k = "any" THEN "any"
         ELSE LET i == FieldIdx(b.v, e.n) IN
              IF i = 0 THEN "none" ELSE IF b.v.f[i].flip THEN Turn(f) ELSE f
    [] e.e \in {"index", "access"} ->
         LET f == FlowOf(env, e.b) IN
         IF f = "none" THEN f ELSE IF TypeOf(env, e).k = "ok" THEN f ELSE "any"
    [] OTHER -> IF TypeOf(env, e).k = "ok" THEN "source" ELSE "any"
=============================================================================
