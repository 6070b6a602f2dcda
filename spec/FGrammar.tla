------------------------------ MODULE FGrammar ------------------------------
(* What a single line says: types, expressions, declarations, statements.   *)
(*                                                                          *)
(* A scope is [ent, mem, mod]: functions from names to ids (see FExpr).     *)
(* Recognisers of statements yield v = [h, ...] where h tells whether the   *)
(* line is a complete statement ("stmt") or opens a block ("when", "mem").  *)
EXTENDS FExpr

EmptyScope == [ent |-> <<>>, mem |-> <<>>, mod |-> <<>>]
Bind(f, n, id) == (n :> id) @@ f
Known(f, n) == n \in DOMAIN f

(* Sequencing: the second recogniser starts where the first one ended.      *)
---------------------------------------------------------------------------
(* Types                                                                    *)
BitWidth(t, p) ==                        \* v: width, Unknown if absent
  LET o == SOp1(t, p, "<")
      w == IF o.ok THEN U16(t, o.p) ELSE Fail
      c == IF w.ok THEN Op1(t, w.p, ">") ELSE Fail
  IN IF c.ok THEN Yes(c.p, w.v) ELSE Yes(p, Unknown)

PointOffset(t, p) ==                     \* v: <<>> or <<point>>
  LET o == SOp2(t, p, "<", "<")
      w == IF o.ok THEN I16(t, o.p) ELSE Fail
      c == IF w.ok THEN Op2(t, w.p, ">", ">") ELSE Fail
  IN IF c.ok THEN Yes(c.p, <<w.v>>) ELSE Yes(p, <<>>)

GroundType(t, p) ==
  LET r == Run(t, p)
      q == p + Len(r)
      w == BitWidth(t, q)
  IN CASE r = "UInt" -> Yes(w.p, UInt(w.v))
       [] r = "SInt" -> Yes(w.p, SInt(w.v))
       [] r = "Analog" -> Yes(w.p, Analog(w.v))
       [] r = "Fixed" -> LET o == PointOffset(t, w.p) IN Yes(o.p, Fixed(w.v, o.v))
       [] r = "Clock" -> Yes(q, Clock)
       [] r = "Reset" -> Yes(q, Reset)
       [] r = "AsyncReset" -> Yes(q, AReset)
       [] OTHER -> Fail

RECURSIVE Type(_, _), TypeFields(_, _, _), TypeVecs(_, _, _)

TypeField(t, p) ==
  LET k  == Kw(t, p, "flip")
      fl == k.ok /\ FieldName(t, Sp(t, k.p)).ok
      n  == FieldName(t, Sp(t, IF fl THEN k.p ELSE p))
      c  == IF n.ok THEN SOp1(t, n.p, ":") ELSE Fail
      ty == IF c.ok THEN Type(t, Sp(t, c.p)) ELSE Fail
  IN IF ty.ok THEN Yes(ty.p, Field(n.v, fl, ty.v)) ELSE Fail

TypeFields(t, p, acc) ==                 \* a comma-separated list, maybe empty
  LET c == IF acc = <<>> THEN Yes(p, "") ELSE SOp1(t, p, ",")
      f == IF c.ok THEN TypeField(t, Sp(t, c.p)) ELSE Fail
  IN IF f.ok THEN TypeFields(t, f.p, Append(acc, f.v)) ELSE Yes(p, acc)

TypeVecs(t, p, ty) ==
  LET o == SOp1(t, p, "[")
      n == IF o.ok THEN U16(t, Sp(t, o.p)) ELSE Fail
      c == IF n.ok THEN SOp1(t, n.p, "]") ELSE Fail
  IN IF c.ok THEN TypeVecs(t, c.p, Vec(ty, n.v)) ELSE Yes(p, ty)

Type(t, p) ==
  LET o == Op1(t, p, "{")
      f == IF o.ok THEN TypeFields(t, o.p, <<>>) ELSE Fail
      c == IF f.ok THEN SOp1(t, f.p, "}") ELSE Fail
      b == IF c.ok THEN Yes(c.p, Bundle(f.v)) ELSE GroundType(t, p)
  IN IF b.ok THEN TypeVecs(t, b.p, b.v) ELSE Fail

SType(t, p) == Type(t, Sp(t, p))

---------------------------------------------------------------------------
(* Expressions                                                              *)
RECURSIVE Expr(_, _, _), Args(_, _, _, _, _), Subscripts(_, _, _, _)
SExpr(t, p, s) == Expr(t, Sp(t, p), s)

(* n comma-separated operands, `first` telling whether no comma precedes.   *)
Args(t, p, s, n, first) ==
  IF n = 0 THEN Yes(p, <<>>)
  ELSE LET c == IF first THEN Yes(p, "") ELSE SOp1(t, p, ",")
           e == IF c.ok THEN SExpr(t, c.p, s) ELSE Fail
           r == IF e.ok THEN Args(t, e.p, s, n - 1, FALSE) ELSE Fail
       IN IF r.ok THEN Yes(r.p, <<e.v>> \o r.v) ELSE Fail

RECURSIVE Consts(_, _, _, _)             \* static arguments, each after a comma
Consts(t, p, n, signed) ==
  IF n = 0 THEN Yes(p, <<>>)
  ELSE LET c == SOp1(t, p, ",")
           e == IF ~c.ok THEN Fail ELSE IF signed THEN I16(t, Sp(t, c.p)) ELSE U16(t, Sp(t, c.p))
           r == IF e.ok THEN Consts(t, e.p, n - 1, signed) ELSE Fail
       IN IF r.ok THEN Yes(r.p, <<e.v>> \o r.v) ELSE Fail

Literal(t, p, k) ==                      \* behind the keyword of kind k
  LET w == BitWidth(t, p)
      o == SOp1(t, w.p, "(")
      v == IF o.ok THEN NumLit(t, Sp(t, o.p)) ELSE Fail
      c == IF v.ok THEN SOp1(t, v.p, ")") ELSE Fail
      m == IF k = "uint" THEN MinWidthU(v.v.hex) ELSE MinWidthS(v.v.neg, v.v.hex)
  IN IF ~c.ok THEN Fail
     ELSE IF k = "uint" /\ v.v.neg THEN Fail
     ELSE IF w.v = Unknown /\ m > MaxBits THEN Fail
     ELSE Yes(c.p, [e |-> k, v |-> (IF v.v.neg /\ v.v.hex # "0" THEN "-" ELSE "") \o v.v.hex,
                    w |-> IF w.v = Unknown THEN m ELSE w.v])

Arity(op) == IF op \in Binary THEN 2 ELSE 1
StaticArity(op) == IF op \in UnaryN \cup UnaryP THEN 1 ELSE IF op = "bits" THEN 2 ELSE 0

Call(t, p, s, n, m, signed) ==           \* "(" n operands, m constants ")"
  LET o == SOp1(t, p, "(")
      a == IF o.ok THEN Args(t, o.p, s, n, TRUE) ELSE Fail
      k == IF a.ok THEN Consts(t, a.p, m, signed) ELSE Fail
      c == IF k.ok THEN SOp1(t, k.p, ")") ELSE Fail
  IN IF c.ok THEN Yes(c.p, [x |-> a.v, p |-> k.v]) ELSE Fail

Atom(t, p, s) ==
  LET i == Ident(t, p)
      q == i.p
      n == i.v
      lit == CASE n = "UInt" -> Literal(t, q, "uint")
               [] n = "SInt" -> Literal(t, q, "sint")
               [] n = "mux" ->
                    LET r == Call(t, q, s, 3, 0, FALSE) IN
                    IF r.ok THEN Yes(r.p, [e |-> "mux", s |-> r.v.x[1], a |-> r.v.x[2], b |-> r.v.x[3]]) ELSE Fail
               [] n = "validif" ->
                    LET r == Call(t, q, s, 2, 0, FALSE) IN
                    IF r.ok THEN Yes(r.p, [e |-> "validif", s |-> r.v.x[1], v |-> r.v.x[2]]) ELSE Fail
               [] n \in OpNames ->
                    LET r == Call(t, q, s, Arity(n), StaticArity(n), n \in UnaryP) IN
                    IF r.ok THEN Yes(r.p, [e |-> "op", op |-> n, x |-> r.v.x, p |-> r.v.p]) ELSE Fail
               [] OTHER -> Fail
  IN IF ~i.ok THEN Fail
     ELSE IF lit.ok THEN lit
     ELSE IF Known(s.ent, n) THEN Yes(q, [e |-> "ref", n |-> n, d |-> s.ent[n]])
     ELSE Fail

Subscripts(t, p, s, e) ==
  LET q == Sp(t, p) IN
  CASE At(t, q) = "." ->
         LET n == FieldName(t, Sp(t, q + 1)) IN
         IF n.ok THEN Subscripts(t, n.p, s, [e |-> "field", b |-> e, n |-> n.v]) ELSE Yes(p, e)
    [] At(t, q) = "[" ->
         LET b == Sp(t, q + 1)
             i == U16(t, b)
             ic == IF i.ok THEN SOp1(t, i.p, "]") ELSE Fail
             x == IF ic.ok THEN Fail ELSE Expr(t, b, s)
             xc == IF x.ok THEN SOp1(t, x.p, "]") ELSE Fail
         IN IF ic.ok THEN Subscripts(t, ic.p, s, [e |-> "index", b |-> e, i |-> i.v])
            ELSE IF xc.ok THEN Subscripts(t, xc.p, s, [e |-> "access", b |-> e, x |-> x.v])
            ELSE Yes(p, e)
    [] OTHER -> Yes(p, e)

Expr(t, p, s) ==
  LET a == Atom(t, p, s) IN IF a.ok THEN Subscripts(t, a.p, s, a.v) ELSE Fail

---------------------------------------------------------------------------
(* Line tails                                                               *)
InfoEnd(t, p) ==                         \* v: info; p: start of the next line
  LET i == Info(t, p)
      l == LineEnd(t, i.p)
  IN IF l.ok THEN Yes(l.p, i.v) ELSE Fail

OptName(t, p) ==                         \* v: <<>> or <<name>>
  LET c == SOp1(t, p, ":")
      n == IF c.ok THEN SIdent(t, c.p) ELSE Fail
  IN IF n.ok THEN Yes(n.p, <<n.v>>) ELSE Yes(p, <<>>)

Stmt(r, v) == Yes(r.p, [h |-> "stmt", v |-> v @@ [info |-> r.v]])
Decl(r, e) == Stmt(r, [s |-> "decl", ent |-> e])

---------------------------------------------------------------------------
(* Ports and headers                                                        *)
PortLine(t, p) ==
  LET d  == IF Kw(t, p, "input").ok THEN Kw(t, p, "input") ELSE Kw(t, p, "output")
      n  == IF d.ok THEN SIdent(t, d.p) ELSE Fail
      c  == IF n.ok THEN SOp1(t, n.p, ":") ELSE Fail
      ty == IF c.ok THEN SType(t, c.p) ELSE Fail
      e  == IF ty.ok THEN InfoEnd(t, ty.p) ELSE Fail
  IN IF e.ok THEN Yes(e.p, [k |-> "port", n |-> n.v, dir |-> d.v, ty |-> ty.v, info |-> e.v]) ELSE Fail

ModuleLine(t, p) ==                      \* p behind the indentation
  LET k == IF Kw(t, p, "module").ok THEN Kw(t, p, "module") ELSE Kw(t, p, "extmodule")
      n == IF k.ok THEN SIdent(t, k.p) ELSE Fail
      c == IF n.ok THEN SOp1(t, n.p, ":") ELSE Fail
      e == IF c.ok THEN InfoEnd(t, c.p) ELSE Fail
  IN IF e.ok THEN Yes(e.p, [kind |-> k.v, n |-> n.v, info |-> e.v]) ELSE Fail

CircuitLine(t, p) ==                     \* blank lines may precede
  LET k == Kw(t, MoreLineEnds(t, p), "circuit")
      n == IF k.ok THEN SIdent(t, k.p) ELSE Fail
      c == IF n.ok THEN SOp1(t, n.p, ":") ELSE Fail
      e == IF c.ok THEN InfoEnd(t, c.p) ELSE Fail
  IN IF e.ok THEN Yes(e.p, [n |-> n.v, info |-> e.v]) ELSE Fail

DefnameLine(t, p) ==
  LET k == Kw(t, p, "defname")
      o == IF k.ok THEN SOp1(t, k.p, "=") ELSE Fail
      n == IF o.ok THEN SIdent(t, o.p) ELSE Fail
      e == IF n.ok THEN LineEnd(t, n.p) ELSE Fail
  IN IF e.ok THEN Yes(e.p, n.v) ELSE Fail

ParamValue(t, p) ==
  LET f == Float(t, p)
      i == I64(t, p)
      s == IF At(t, p) \in {DQ, "'"} THEN Closed(t, p + 1, At(t, p)) ELSE Fail
  IN IF f.ok THEN Yes(f.p, [dbl |-> f.v]) ELSE IF i.ok THEN Yes(i.p, [int |-> i.v])
     ELSE IF s.ok THEN Yes(s.p, [str |-> s.v]) ELSE Fail

ParamLine(t, p) ==
  LET k == Kw(t, p, "parameter")
      n == IF k.ok THEN SIdent(t, k.p) ELSE Fail
      o == IF n.ok THEN SOp1(t, n.p, "=") ELSE Fail
      v == IF o.ok THEN ParamValue(t, Sp(t, o.p)) ELSE Fail
      e == IF v.ok THEN LineEnd(t, v.p) ELSE Fail
  IN IF e.ok THEN Yes(e.p, [k |-> n.v, v |-> v.v]) ELSE Fail

---------------------------------------------------------------------------
(* Memory entries. v = [key, v]                                             *)
Ruw(t, p) == LET r == Run(t, p) IN
  IF r \in {"old", "new", "undefined"} THEN Yes(p + Len(r), r) ELSE Fail

MemEntry(t, p) ==
  LET two(a, b) == KwDash(t, p, <<a, b>>)
      k == CASE Run(t, p) = "data" -> two("data", "type")
             [] Run(t, p) = "read" /\ two("read", "latency").ok -> two("read", "latency")
             [] Run(t, p) = "read" -> KwDash(t, p, <<"read", "under", "write">>)
             [] Run(t, p) = "write" -> two("write", "latency")
             [] Run(t, p) \in {"depth", "reader", "writer", "readwriter"} -> Kw(t, p, Run(t, p))
             [] OTHER -> Fail
      key == IF ~k.ok THEN "" ELSE Cut(t, p, k.p - 1)
      o == IF k.ok THEN SOp2(t, k.p, "=", ">") ELSE Fail
      q == IF o.ok THEN Sp(t, o.p) ELSE 0
      v == IF ~o.ok THEN Fail
           ELSE CASE key = "data-type" -> Type(t, q)
                  [] key = "depth" -> U64(t, q)
                  [] key \in {"reader", "writer", "readwriter"} -> Ident(t, q)
                  [] key \in {"read-latency", "write-latency"} -> U16(t, q)
                  [] key = "read-under-write" -> Ruw(t, q)
      e == IF v.ok THEN LineEnd(t, v.p) ELSE Fail
  IN IF e.ok THEN Yes(e.p, [key |-> key, v |-> v.v]) ELSE Fail

---------------------------------------------------------------------------
(* printf messages                                                          *)
FmtSpecs == {"b", "d", "x", "c"}

RECURSIVE FmtText(_, _, _)               \* literal text in front of a specifier
FmtText(t, p, acc) ==
  LET c == At(t, p)  d == At(t, p + 1) IN
  CASE c = "" \/ c = DQ \/ c = LF \/ c = TAB -> Yes(p, acc)
    [] c = "%" -> IF d = "%" THEN FmtText(t, p + 2, acc \o "%") ELSE Yes(p, acc)
    [] c = BS -> IF d = "" THEN Yes(p, acc)
                 ELSE FmtText(t, p + 2, acc \o (IF d = "n" THEN LF ELSE IF d = "t" THEN TAB ELSE d))
    [] OTHER -> FmtText(t, p + 1, acc \o c)

RECURSIVE FmtParts(_, _)                 \* v: parts, [lit] or [f]
FmtParts(t, p) ==
  IF At(t, p) = "%" /\ At(t, p + 1) \in FmtSpecs
  THEN LET r == FmtParts(t, p + 2) IN Yes(r.p, <<[f |-> At(t, p + 1)]>> \o r.v)
  ELSE LET l == FmtText(t, p, "") IN
       IF l.p = p THEN Yes(p, <<>>)
       ELSE LET r == FmtParts(t, l.p) IN Yes(r.p, <<[lit |-> l.v]>> \o r.v)

IsSpec(part) == "f" \in DOMAIN part
Count(parts) == Cardinality({i \in 1 .. Len(parts) : IsSpec(parts[i])})
Fill(parts, xs) ==                       \* specifiers take the operands in order
  [i \in 1 .. Len(parts) |->
     IF IsSpec(parts[i])
     THEN [x |-> xs[Count(SubSeq(parts, 1, i))], f |-> parts[i].f] ELSE parts[i]]

PrintMsg(t, p, s) ==
  LET o  == Op1(t, p, DQ)
      f  == IF o.ok THEN FmtParts(t, o.p) ELSE Fail
      c  == IF f.ok THEN Op1(t, f.p, DQ) ELSE Fail
      xs == IF c.ok THEN Args(t, c.p, s, Count(f.v), FALSE) ELSE Fail
  IN IF xs.ok THEN Yes(xs.p, Fill(f.v, xs.v)) ELSE Fail

---------------------------------------------------------------------------
(* Statements                                                               *)
ExprStmt(t, p, s) ==                     \* connections and invalidations
  LET a  == Expr(t, p, s)
      q  == Sp(t, a.p)
      op == IF ~a.ok THEN "" ELSE IF Op2(t, q, "<", "=").ok THEN "conn"
            ELSE IF Op2(t, q, "<", "-").ok THEN "pconn" ELSE "inval"
      b  == IF op \in {"conn", "pconn"} THEN SExpr(t, q + 2, s) ELSE Fail
      i1 == IF op = "inval" THEN Kw(t, q, "is") ELSE Fail
      i2 == IF i1.ok THEN SKw(t, i1.p, "invalid") ELSE Fail
      e  == IF b.ok THEN InfoEnd(t, b.p) ELSE IF i2.ok THEN InfoEnd(t, i2.p) ELSE Fail
  IN IF ~e.ok THEN Fail
     ELSE IF op = "inval" THEN Stmt(e, [s |-> "inval", x |-> a.v])
     ELSE Stmt(e, [s |-> op, to |-> a.v, from |-> b.v])

NamedColon(t, p) ==                      \* name ":"
  LET n == SIdent(t, p)
      c == IF n.ok THEN SOp1(t, n.p, ":") ELSE Fail
  IN IF c.ok THEN Yes(c.p, n.v) ELSE Fail

NamedEq(t, p) ==                         \* name "="
  LET n == SIdent(t, p)
      c == IF n.ok THEN SOp1(t, n.p, "=") ELSE Fail
  IN IF c.ok THEN Yes(c.p, n.v) ELSE Fail

WireStmt(t, p) ==
  LET n  == NamedColon(t, p)
      ty == IF n.ok THEN SType(t, n.p) ELSE Fail
      e  == IF ty.ok THEN InfoEnd(t, ty.p) ELSE Fail
  IN IF e.ok THEN Decl(e, [k |-> "wire", n |-> n.v, ty |-> ty.v]) ELSE Fail

ResetClause(t, p, s) ==                  \* v: <<>> or <<[s, v]>>
  LET w  == SKw(t, p, "with")
      c  == IF w.ok THEN SOp1(t, w.p, ":") ELSE Fail
      o  == IF c.ok THEN SOp1(t, c.p, "(") ELSE Fail
      r  == IF o.ok THEN SKw(t, o.p, "reset") ELSE Fail
      a  == IF r.ok THEN SOp2(t, r.p, "=", ">") ELSE Fail
      xs == IF a.ok THEN Call(t, a.p, s, 2, 0, FALSE) ELSE Fail
      e  == IF xs.ok THEN SOp1(t, xs.p, ")") ELSE Fail
  IN IF e.ok THEN Yes(e.p, <<[s |-> xs.v.x[1], v |-> xs.v.x[2]]>>) ELSE Yes(p, <<>>)

RegStmt(t, p, s) ==
  LET n  == NamedColon(t, p)
      ty == IF n.ok THEN SType(t, n.p) ELSE Fail
      c  == IF ty.ok THEN Args(t, ty.p, s, 1, FALSE) ELSE Fail
      r  == IF c.ok THEN ResetClause(t, c.p, s) ELSE Fail
      e  == IF r.ok THEN InfoEnd(t, r.p) ELSE Fail
  IN IF e.ok THEN Decl(e, [k |-> "reg", n |-> n.v, ty |-> ty.v, clk |-> c.v[1], rst |-> r.v]) ELSE Fail

NodeStmt(t, p, s) ==
  LET n == NamedEq(t, p)
      v == IF n.ok THEN SExpr(t, n.p, s) ELSE Fail
      e == IF v.ok THEN InfoEnd(t, v.p) ELSE Fail
  IN IF e.ok THEN Decl(e, [k |-> "node", n |-> n.v, v |-> v.v]) ELSE Fail

MemHead(t, p) ==
  LET n == NamedColon(t, p)
      e == IF n.ok THEN InfoEnd(t, n.p) ELSE Fail
  IN IF e.ok THEN Yes(e.p, [h |-> "mem", n |-> n.v, info |-> e.v]) ELSE Fail

MPortStmt(t, p, s, dir) ==
  LET k == SKw(t, p, "mport")
      n == IF k.ok THEN NamedEq(t, k.p) ELSE Fail
      m == IF n.ok THEN SIdent(t, n.p) ELSE Fail
      o == IF m.ok /\ Known(s.mem, m.v) THEN SOp1(t, m.p, "[") ELSE Fail
      a == IF o.ok THEN SExpr(t, o.p, s) ELSE Fail
      c == IF a.ok THEN SOp1(t, a.p, "]") ELSE Fail
      q == IF ~c.ok THEN 0 ELSE IF SOp1(t, c.p, ",").ok THEN SOp1(t, c.p, ",").p ELSE c.p
      x == IF c.ok THEN SExpr(t, q, s) ELSE Fail
      e == IF x.ok THEN InfoEnd(t, x.p) ELSE Fail
  IN IF e.ok THEN Decl(e, [k |-> "mport", n |-> n.v, m |-> m.v, md |-> s.mem[m.v], dir |-> dir,
                           addr |-> a.v, clk |-> x.v]) ELSE Fail

InstStmt(t, p, s) ==
  LET n == SIdent(t, p)
      k == IF n.ok THEN SKw(t, n.p, "of") ELSE Fail
      m == IF k.ok THEN SIdent(t, k.p) ELSE Fail
      e == IF m.ok /\ Known(s.mod, m.v) THEN InfoEnd(t, m.p) ELSE Fail
  IN IF e.ok THEN Decl(e, [k |-> "inst", n |-> n.v, of |-> m.v, mi |-> s.mod[m.v]]) ELSE Fail

SMemStmt(t, p, kind) ==
  LET n  == NamedColon(t, p)
      ty == IF n.ok THEN SType(t, n.p) ELSE Fail
      c  == IF ty.ok /\ kind = "smem" THEN SOp1(t, ty.p, ",") ELSE Fail
      r  == IF c.ok THEN Ruw(t, Sp(t, c.p)) ELSE Fail
      e  == IF r.ok THEN InfoEnd(t, r.p) ELSE IF ty.ok THEN InfoEnd(t, ty.p) ELSE Fail
  IN IF e.ok THEN Stmt(e, [s |-> "smem", m |-> [n |-> n.v, ty |-> ty.v, kind |-> kind,
                                                ruw |-> IF r.ok THEN <<r.v>> ELSE <<>>]]) ELSE Fail

RECURSIVE MoreArgs(_, _, _)
MoreArgs(t, p, s) ==                     \* any number of operands after commas
  LET a == Args(t, p, s, 1, FALSE)
      r == IF a.ok THEN MoreArgs(t, a.p, s) ELSE Fail
  IN IF a.ok THEN Yes(r.p, a.v \o r.v) ELSE Yes(p, <<>>)

AttachStmt(t, p, s) ==
  LET o == SOp1(t, p, "(")
      a == IF o.ok THEN Args(t, o.p, s, 1, TRUE) ELSE Fail
      m == IF a.ok THEN MoreArgs(t, a.p, s) ELSE Fail
      c == IF m.ok THEN SOp1(t, m.p, ")") ELSE Fail
      e == IF c.ok THEN InfoEnd(t, c.p) ELSE Fail
  IN IF e.ok THEN Stmt(e, [s |-> "attach", xs |-> a.v \o m.v]) ELSE Fail

StopStmt(t, p, s) ==
  LET o == SOp1(t, p, "(")
      a == IF o.ok THEN Args(t, o.p, s, 2, TRUE) ELSE Fail
      m == IF a.ok THEN SOp1(t, a.p, ",") ELSE Fail
      k == IF m.ok THEN I64(t, Sp(t, m.p)) ELSE Fail
      c == IF k.ok THEN SOp1(t, k.p, ")") ELSE Fail
      n == IF c.ok THEN OptName(t, c.p) ELSE Fail
      e == IF n.ok THEN InfoEnd(t, n.p) ELSE Fail
  IN IF e.ok THEN Stmt(e, [s |-> "stop", clk |-> a.v[1], c |-> a.v[2], code |-> k.v, name |-> n.v]) ELSE Fail

PrintStmt(t, p, s) ==
  LET o == SOp1(t, p, "(")
      a == IF o.ok THEN Args(t, o.p, s, 2, TRUE) ELSE Fail
      m == IF a.ok THEN SOp1(t, a.p, ",") ELSE Fail
      k == IF m.ok THEN PrintMsg(t, Sp(t, m.p), s) ELSE Fail
      c == IF k.ok THEN SOp1(t, k.p, ")") ELSE Fail
      n == IF c.ok THEN OptName(t, c.p) ELSE Fail
      e == IF n.ok THEN InfoEnd(t, n.p) ELSE Fail
  IN IF e.ok THEN Stmt(e, [s |-> "print", clk |-> a.v[1], c |-> a.v[2], msg |-> k.v, name |-> n.v]) ELSE Fail

WhenHead(t, p, s) ==                     \* p behind the keyword
  LET x == SExpr(t, p, s)
      c == IF x.ok THEN SOp1(t, x.p, ":") ELSE Fail
      e == IF c.ok THEN InfoEnd(t, c.p) ELSE Fail
  IN IF e.ok THEN Yes(e.p, [h |-> "when", c |-> x.v, info |-> e.v]) ELSE Fail

(* A line is read as a connection or an invalidation if it can be: keywords *)
(* are not reserved and may as well name an entity.                         *)
StmtLine(t, p, s) ==
  LET x == ExprStmt(t, p, s)
      w == Run(t, p)
      q == p + Len(w)
  IN IF x.ok THEN x
     ELSE CASE w = "skip" -> LET e == InfoEnd(t, q) IN IF e.ok THEN Stmt(e, [s |-> "skip"]) ELSE Fail
            [] w = "wire" -> WireStmt(t, q)
            [] w = "reg" -> RegStmt(t, q, s)
            [] w = "node" -> NodeStmt(t, q, s)
            [] w = "mem" -> MemHead(t, q)
            [] w \in {"read", "write", "rdwr", "infer"} -> MPortStmt(t, q, s, w)
            [] w = "inst" -> InstStmt(t, q, s)
            [] w \in {"cmem", "smem"} -> SMemStmt(t, q, w)
            [] w = "attach" -> AttachStmt(t, q, s)
            [] w = "stop" -> StopStmt(t, q, s)
            [] w = "printf" -> PrintStmt(t, q, s)
            [] w = "when" -> WhenHead(t, q, s)
            [] OTHER -> Fail
=============================================================================
