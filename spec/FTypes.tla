------------------------------- MODULE FTypes -------------------------------
(* The type algebra: widths, ground types, vectors, bundles, equivalence,   *)
(* orientation, merging.                                                    *)
(*                                                                          *)
(* A type is one of                                                         *)
(*   [t: "uint"|"sint"|"analog", w: width]      [t: "clock"|"reset"|"areset"]*)
(*   [t: "fixed", w: width, p: <<>> or <<point>>]                            *)
(*   [t: "vec", b: type, n: length]                                          *)
(*   [t: "bundle", f: sequence of [n: name, flip: BOOLEAN, ty: type]]        *)
(* Unknown widths are -1.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Unknown == -1
MaxBits == 65535
MinPt == -32768
MaxPt == 32767

UInt(w)  == [t |-> "uint", w |-> w]
SInt(w)  == [t |-> "sint", w |-> w]
Analog(w) == [t |-> "analog", w |-> w]
Fixed(w, p) == [t |-> "fixed", w |-> w, p |-> p]
Clock    == [t |-> "clock"]
Reset    == [t |-> "reset"]
AReset   == [t |-> "areset"]
Vec(b, n) == [t |-> "vec", b |-> b, n |-> n]
Bundle(f) == [t |-> "bundle", f |-> f]
Field(n, flip, ty) == [n |-> n, flip |-> flip, ty |-> ty]

IsGround(ty) == ty.t \notin {"vec", "bundle"}
HasWidth(ty) == ty.t \in {"uint", "sint", "analog", "fixed"}
WidthOf(ty) == IF HasWidth(ty) THEN ty.w ELSE 1            \* of a ground type
WithWidth(ty, w) == IF HasWidth(ty) THEN [ty EXCEPT !.w = w] ELSE ty

FitW(x) == IF x >= 0 /\ x <= MaxBits THEN x ELSE Unknown   \* no wrap-around
FitP(x) == IF x >= MinPt /\ x <= MaxPt THEN <<x>> ELSE <<>>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

---------------------------------------------------------------------------
(* Type equivalence: structure, kinds and orientation, not widths.          *)
RECURSIVE TypeEq(_, _)
TypeEq(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "vec" -> a.n = b.n /\ TypeEq(a.b, b.b)
       [] a.t = "bundle" ->
            /\ Len(a.f) = Len(b.f)
            /\ \A i \in 1 .. Len(a.f) :
                 /\ a.f[i].n = b.f[i].n
                 /\ a.f[i].flip = b.f[i].flip
                 /\ TypeEq(a.f[i].ty, b.f[i].ty)
       [] OTHER -> TRUE

(* The leaf-oriented type: leaves carry the parity of the flips above them. *)
RECURSIVE Orient(_, _)
Orient(a, flipped) ==
  CASE a.t = "vec" -> [t |-> "vec", b |-> Orient(a.b, flipped), n |-> a.n]
    [] a.t = "bundle" ->
         [t |-> "bundle",
          f |-> TLCEval([i \in 1 .. Len(a.f) |->
                   [n |-> a.f[i].n, ty |-> Orient(a.f[i].ty, flipped # a.f[i].flip)]])]
    [] OTHER -> [t |-> "leaf", g |-> a, flip |-> flipped]

RECURSIVE OFlipped(_)
OFlipped(o) ==
  CASE o.t = "vec" -> [o EXCEPT !.b = OFlipped(@)]
    [] o.t = "bundle" -> [o EXCEPT !.f = TLCEval([i \in 1 .. Len(@) |-> [@[i] EXCEPT !.ty = OFlipped(@)]])]
    [] OTHER -> [o EXCEPT !.flip = ~@]

RECURSIVE OEq(_, _)
OEq(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "vec" -> a.n = b.n /\ OEq(a.b, b.b)
       [] a.t = "bundle" ->
            /\ Len(a.f) = Len(b.f)
            /\ \A i \in 1 .. Len(a.f) : a.f[i].n = b.f[i].n /\ OEq(a.f[i].ty, b.f[i].ty)
       [] OTHER -> a.g.t = b.g.t /\ a.flip = b.flip

WeakEq(a, b) == OEq(Orient(a, FALSE), Orient(b, FALSE))

RECURSIVE Passive(_)
Passive(a) ==
  CASE a.t = "vec" -> Passive(a.b)
    [] a.t = "bundle" -> \A i \in 1 .. Len(a.f) : ~a.f[i].flip /\ Passive(a.f[i].ty)
    [] OTHER -> TRUE

RECURSIVE OPassive(_)
OPassive(o) ==
  CASE o.t = "vec" -> OPassive(o.b)
    [] o.t = "bundle" -> \A i \in 1 .. Len(o.f) : OPassive(o.f[i].ty)
    [] OTHER -> ~o.flip

(* First field of a name; 0 if the type has none.                           *)
FieldIdx(a, n) ==
  IF a.t # "bundle" THEN 0
  ELSE LET is == {i \in 1 .. Len(a.f) : a.f[i].n = n}
       IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j

---------------------------------------------------------------------------
(* Merging. A result is [ok, v].                                            *)
NoType == [ok |-> FALSE, v |-> Clock]
OkType(ty) == [ok |-> TRUE, v |-> ty]

MaxW(a, b) == IF a = Unknown \/ b = Unknown THEN Unknown ELSE Max(a, b)
SumW(a, b) == IF a = Unknown \/ b = Unknown THEN Unknown ELSE FitW(a + b)
MinW(a, b) == IF a = Unknown \/ b = Unknown THEN Unknown ELSE Min(a, b)

(* Width keeping the most integer bits and the most fraction bits. *)
FixedMax(lw, lp, rw, rp) == FitW(Max(lw - lp, rw - rp) + Max(lp, rp))

FixedKnown(a) == a.w # Unknown /\ a.p # <<>>

MergeGround(a, b) ==
  IF a.t # b.t THEN NoType
  ELSE IF a.t = "fixed" THEN
    IF FixedKnown(a) /\ FixedKnown(b)
    THEN OkType(Fixed(FixedMax(a.w, a.p[1], b.w, b.p[1]), <<Max(a.p[1], b.p[1])>>))
    ELSE OkType(Fixed(Unknown, <<>>))
  ELSE IF HasWidth(a) THEN OkType(WithWidth(a, MaxW(a.w, b.w)))
  ELSE OkType(a)

RECURSIVE Merge(_, _)
Merge(a, b) ==
  IF IsGround(a) /\ IsGround(b) THEN MergeGround(a, b)
  ELSE IF a.t # b.t THEN NoType
  ELSE IF a.t = "vec" THEN
    LET r == Merge(a.b, b.b) IN
    IF a.n = b.n /\ r.ok THEN OkType(Vec(r.v, a.n)) ELSE NoType
  ELSE
    IF Len(a.f) # Len(b.f) THEN NoType
    ELSE IF \E i \in 1 .. Len(a.f) : a.f[i].n # b.f[i].n \/ a.f[i].flip # b.f[i].flip THEN NoType
    ELSE LET rs == TLCEval([i \in 1 .. Len(a.f) |-> Merge(a.f[i].ty, b.f[i].ty)])
         IN IF \A i \in 1 .. Len(a.f) : rs[i].ok
            THEN OkType(Bundle(TLCEval([i \in 1 .. Len(a.f) |-> [a.f[i] EXCEPT !.ty = rs[i].v]])))
            ELSE NoType

(* Merging by a mere function on widths: same structure, but fixed-point    *)
(* types cannot be merged that way.                                         *)
WF(f, a, b) == CASE f = "max" -> MaxW(a, b) [] f = "min" -> MinW(a, b) [] f = "sum" -> SumW(a, b)

RECURSIVE MergeFn(_, _, _)
MergeFn(f, a, b) ==
  IF a.t # b.t \/ a.t = "fixed" THEN NoType
  ELSE IF a.t = "vec" THEN
    LET r == MergeFn(f, a.b, b.b) IN
    IF a.n = b.n /\ r.ok THEN OkType(Vec(r.v, a.n)) ELSE NoType
  ELSE IF a.t = "bundle" THEN
    IF Len(a.f) # Len(b.f) THEN NoType
    ELSE IF \E i \in 1 .. Len(a.f) : a.f[i].n # b.f[i].n \/ a.f[i].flip # b.f[i].flip THEN NoType
    ELSE LET rs == TLCEval([i \in 1 .. Len(a.f) |-> MergeFn(f, a.f[i].ty, b.f[i].ty)])
         IN IF \A i \in 1 .. Len(a.f) : rs[i].ok
            THEN OkType(Bundle(TLCEval([i \in 1 .. Len(a.f) |-> [a.f[i] EXCEPT !.ty = rs[i].v]])))
            ELSE NoType
  ELSE IF HasWidth(a) THEN OkType(WithWidth(a, WF(f, a.w, b.w)))
  ELSE OkType(a)

---------------------------------------------------------------------------
(* Interfaces.                                                              *)
RECURSIVE Mask(_)
Mask(a) ==
  CASE a.t = "vec" -> Vec(Mask(a.b), a.n)
    [] a.t = "bundle" -> Bundle(TLCEval([i \in 1 .. Len(a.f) |-> [a.f[i] EXCEPT !.ty = Mask(@)]]))
    [] OTHER -> UInt(1)

MemPortType(dir, data, aw) ==
  LET common == << Field("addr", FALSE, UInt(aw)), Field("en", FALSE, UInt(1)), Field("clk", FALSE, Clock) >>
  IN Bundle(
    CASE dir = "read"  -> << Field("data", TRUE, data) >> \o common
      [] dir = "write" -> << Field("data", FALSE, data), Field("mask", FALSE, Mask(data)) >> \o common
      [] dir = "rdwr"  -> << Field("wmode", FALSE, UInt(1)), Field("rdata", TRUE, data),
                             Field("wdata", FALSE, data), Field("wmask", FALSE, Mask(data)) >> \o common)
MemType(data, aw, ports) ==
  Bundle([i \in 1 .. Len(ports) |-> Field(ports[i].n, TRUE, MemPortType(ports[i].d, data, aw))])

InstType(ports) ==
  Bundle([i \in 1 .. Len(ports) |-> Field(ports[i].n, ports[i].dir = "input", ports[i].ty)])
=============================================================================
