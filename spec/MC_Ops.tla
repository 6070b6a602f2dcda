------------------------------- MODULE MC_Ops -------------------------------
(* Typing of primitive operations.                                          *)
(*                                                                          *)
(* For all small widths and all values of those widths, the result of each  *)
(* operation fits into the type the rules give it, and there are values     *)
(* needing all of it where the rules claim to be tight. For extreme widths, *)
(* results are legal types. The combinations of operands are emitted.       *)
EXTENDS FExpr, Json, IOUtils

Thorough == IOEnv.TIER = "thorough"
W == IF Thorough THEN 4 ELSE 3           \* widths of which all values are tried

IntTypes == {UInt(w) : w \in 0 .. W} \cup {SInt(w) : w \in 1 .. W}
EdgeWidths == {Unknown, 0, 1, 2, 15, 16, 17, 32767, 32768, 65534, 65535}
EdgePoints == {-32768, -32767, -1, 0, 1, 32766, 32767}
EdgeTypes == {UInt(w) : w \in EdgeWidths} \cup {SInt(w) : w \in EdgeWidths} \cup {Analog(w) : w \in {Unknown, 0, 7}}
             \cup {Fixed(w, p) : w \in {Unknown, 0, 1, 8, 65535}, p \in {<<>>} \cup {<<x>> : x \in {-32768, -3, 0, 4, 32767}}}
             \cup {Clock, Reset, AReset, Vec(UInt(1), 2), Bundle(<<>>)}
Statics == {0, 1, 2, 3, 8, 32767, 32768, 65534, 65535}

Params(op, max) ==                       \* static arguments to be tried
  CASE op = "bits" -> {<<h, l>> : h \in 0 .. max, l \in 0 .. max}
    [] op \in UnaryN \cup UnaryP -> {<<n>> : n \in 0 .. max}
    [] OTHER -> {<<>>}
EdgeParams(op) ==
  CASE op = "bits" -> {<<h, l>> : h, l \in {0, 1, 7, 65534, 65535}}
    [] op \in UnaryN -> {<<n>> : n \in Statics}
    [] op \in UnaryP -> {<<n>> : n \in EdgePoints}
    [] OTHER -> {<<>>}
Operands(op, ts) == IF op \in Binary THEN {<<a, b>> : a, b \in ts} ELSE {<<a>> : a \in ts}

---------------------------------------------------------------------------
(* Values of integer types and what operations make of them.                *)
Values(t) == CASE t.t = "uint" -> 0 .. 2^t.w - 1
               [] t.t = "sint" -> -(2^(t.w - 1)) .. 2^(t.w - 1) - 1
Fits(v, t) ==
  IF t.w = Unknown THEN TRUE
  ELSE IF t.t = "uint" THEN v >= 0 /\ v < 2^t.w
  ELSE IF t.w = 0 THEN v = 0 ELSE v >= -(2^(t.w - 1)) /\ v < 2^(t.w - 1)

Pattern(v, w) == v % 2^w                 \* two's complement, as a natural
AsSigned(u, w) == IF w > 0 /\ u >= 2^(w - 1) THEN u - 2^w ELSE u
Trunc(a, b) ==                           \* division truncating towards zero
  LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
  IN IF (a < 0) # (b < 0) THEN -q ELSE q
RECURSIVE BitFold(_, _, _, _)
BitOf(u, i) == (u \div 2^i) % 2
BitFold(op, x, y, w) ==
  IF w = 0 THEN 0
  ELSE LET a == BitOf(x, w - 1)  b == BitOf(y, w - 1)
           r == CASE op = "and" -> a * b [] op = "or" -> Max(a, b) [] op = "xor" -> (a + b) % 2
       IN r * 2^(w - 1) + BitFold(op, x, y, w - 1)
B01(c) == IF c THEN 1 ELSE 0

(* v: values, t: their types, p: static arguments; partial where FIRRTL is. *)
Defined(op, v, t, p) ==
  CASE op \in {"div", "rem"} -> v[2] # 0
    [] op = "bits" -> p[1] >= p[2] /\ p[1] < t[1].w
    [] op = "head" -> p[1] <= t[1].w
    [] op = "tail" -> p[1] <= t[1].w
    [] op = "sub" -> t[1].t = "sint" \/ v[1] >= v[2]     \* wraps by definition
    [] OTHER -> TRUE
Value(op, v, t, p) ==
  LET a == v[1]  b == v[2]  w == t[1].w  u == Pattern(v[1], w) IN
  CASE op = "add" -> a + b [] op = "sub" -> a - b [] op = "mul" -> a * b
    [] op = "div" -> Trunc(a, b) [] op = "rem" -> a - b * Trunc(a, b)
    [] op = "lt" -> B01(a < b) [] op = "leq" -> B01(a <= b) [] op = "gt" -> B01(a > b)
    [] op = "geq" -> B01(a >= b) [] op = "eq" -> B01(a = b) [] op = "neq" -> B01(a # b)
    [] op = "pad" -> a
    [] op = "asUInt" -> u [] op = "asSInt" -> AsSigned(u, w)
    [] op = "shl" -> a * 2^p[1] [] op = "shr" -> a \div 2^p[1]
    [] op = "dshl" -> a * 2^b [] op = "dshr" -> a \div 2^b
    [] op = "cvt" -> a [] op = "neg" -> -a
    [] op = "not" -> 2^w - 1 - u
    [] op \in Bitwise -> LET m == Max(t[1].w, t[2].w) IN BitFold(op, Pattern(a, m), Pattern(b, m), m)
    [] op = "andr" -> B01(u = 2^w - 1) [] op = "orr" -> B01(u # 0) [] op = "xorr" -> B01(BitFold("xor", u, 0, w) = 1)
    [] op = "cat" -> u * 2^t[2].w + Pattern(b, t[2].w)
    [] op = "bits" -> (u \div 2^p[2]) % 2^(p[1] - p[2] + 1)
    [] op = "head" -> u \div 2^(w - p[1]) [] op = "tail" -> u % 2^(w - p[1])

IntOps == OpNames \ {"asFixed", "setp", "incp", "decp", "asClock", "asAsyncReset"}

(* Rules which promise no spare bit: some values need all of the width.     *)
Tight == {"add", "mul", "div", "dshl", "shl", "cvt", "neg", "cat", "lt", "eq", "asUInt", "asSInt", "not", "or", "bits", "head", "tail"}

---------------------------------------------------------------------------
SeqOf(S) == LET RECURSIVE f(_) f(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o f(s \ {x}) IN f(S)
VARIABLES op, ts, p, small

Init == \/ /\ small = TRUE /\ op \in IntOps /\ p \in Params(op, W) /\ ts \in Operands(op, IntTypes)
        \/ /\ small = FALSE /\ op \in OpNames /\ p \in EdgeParams(op) /\ ts \in Operands(op, EdgeTypes)
Next == UNCHANGED <<op, ts, p, small>>

Result == OpType(op, [i \in 1 .. Len(ts) |-> TOk(ts[i])], p)
Tuples == IF Len(ts) = 1 THEN {<<a>> : a \in Values(ts[1])} ELSE {<<a, b>> : a \in Values(ts[1]), b \in Values(ts[2])}

WideEnough ==
  small /\ Result.k = "ok" =>
    \A v \in Tuples : Defined(op, v, ts, p) => Fits(Value(op, v, ts, p), Result.v)

RECURSIVE LegalType(_)
LegalType(t) ==
  CASE t.t = "vec" -> LegalType(t.b)
    [] t.t = "bundle" -> \A i \in 1 .. Len(t.f) : LegalType(t.f[i].ty)
    [] OTHER -> /\ HasWidth(t) => t.w = Unknown \/ (t.w >= 0 /\ t.w <= MaxBits)
                /\ t.t = "fixed" => t.p = <<>> \/ (t.p[1] >= MinPt /\ t.p[1] <= MaxPt)
Legal == Result.k = "ok" => IsGround(Result.v) /\ LegalType(Result.v)

(* A width is unknown only if an operand's is, or the result does not fit.  *)
AllKnown == \A i \in 1 .. Len(ts) : HasWidth(ts[i]) => ts[i].w # Unknown
KnownStays ==
  small /\ Result.k = "ok" /\ HasWidth(Result.v) /\ AllKnown /\ Result.v.w = Unknown =>
    op \in {"bits", "tail", "head"} /\ \A v \in Tuples : ~Defined(op, v, ts, p) \/ op = "bits"

(* Comparing and swapping: commuting operations have commuting types.       *)
Commutes == op \in {"add", "sub", "mul", "rem", "and", "or", "xor", "cat"} \cup Compare /\ Result.k = "ok" =>
  OpType(op, <<TOk(ts[2]), TOk(ts[1])>>, p) = Result

ASSUME PrintT("EMIT " \o ToJson(
  [types |-> SeqOf(EdgeTypes \cup IntTypes),
   ops |-> SeqOf({[op |-> o, p |-> SeqOf(EdgeParams(o) \cup Params(o, W)), n |-> IF o \in Binary THEN 2 ELSE 1] : o \in OpNames})]))
=============================================================================
