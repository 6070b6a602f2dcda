------------------------------ MODULE MC_Types ------------------------------
(* The type algebra over a small universe of types: every pair and, for a   *)
(* smaller universe, every triple. The universe is emitted for replay.      *)
EXTENDS FTypes, Json, IOUtils, SequencesExt

Thorough == IOEnv.TIER = "thorough"

Grounds == << UInt(Unknown), UInt(0), UInt(1), UInt(2), SInt(Unknown), SInt(1), Analog(Unknown), Analog(3),
              Fixed(Unknown, <<>>), Fixed(4, <<>>), Fixed(Unknown, <<1>>), Fixed(4, <<1>>), Fixed(3, <<-2>>), Fixed(65535, <<-32768>>),
              Clock, Reset, AReset, UInt(65535) >>
Cores == << UInt(Unknown), UInt(1), UInt(2), SInt(1), Fixed(4, <<1>>), Fixed(2, <<2>>), Clock, Reset, AReset >>

Flat(ts) ==
  [i \in 1 .. Len(ts) |-> Vec(ts[i], 2)] \o << Vec(ts[1], 3), Vec(ts[1], 0) >>
  \o [i \in 1 .. Len(ts) |-> Bundle(<<Field("a", FALSE, ts[i])>>)]
  \o [i \in 1 .. Len(ts) |-> Bundle(<<Field("a", TRUE, ts[i])>>)]
  \o << Bundle(<<>>), Bundle(<<Field("b", FALSE, ts[1])>>),
        Bundle(<<Field("a", FALSE, ts[1]), Field("b", TRUE, ts[2])>>),
        Bundle(<<Field("b", TRUE, ts[2]), Field("a", FALSE, ts[1])>>),
        Bundle(<<Field("a", TRUE, ts[1]), Field("b", TRUE, ts[2])>>),
        Bundle(<<Field("a", FALSE, ts[1]), Field("a", TRUE, ts[2])>>) >>

Nest == LET b == << Bundle(<<Field("a", TRUE, UInt(1))>>), Bundle(<<Field("a", FALSE, UInt(2))>>), Bundle(<<>>),
                    Vec(Bundle(<<Field("a", TRUE, Clock)>>), 2), Vec(Vec(UInt(1), 2), 1), Vec(UInt(Unknown), 2) >> IN
  [i \in 1 .. Len(b) |-> Vec(b[i], 2)]
  \o [i \in 1 .. Len(b) |-> Bundle(<<Field("a", FALSE, b[i])>>)]
  \o [i \in 1 .. Len(b) |-> Bundle(<<Field("a", TRUE, b[i])>>)]
  \o [i \in 1 .. Len(b) |-> Bundle(<<Field("x", FALSE, Clock), Field("a", i % 2 = 0, b[i]), Field("y", TRUE, b[1])>>)]

Universe == Grounds \o Flat(Cores) \o Nest
TripleU == << UInt(Unknown), UInt(1), UInt(2), SInt(1), Fixed(4, <<1>>), Fixed(2, <<2>>), Fixed(Unknown, <<>>), Reset, AReset,
              Vec(UInt(1), 2), Vec(UInt(3), 2), Vec(Reset, 2) >>
           \o [i \in 1 .. 4 |-> Bundle(<<Field("a", i % 2 = 0, UInt(i)), Field("b", i > 2, SInt(1))>>)]
           \o << Bundle(<<Field("a", TRUE, Bundle(<<Field("b", TRUE, UInt(1))>>))>>),
                 Bundle(<<Field("a", FALSE, Bundle(<<Field("b", FALSE, UInt(2))>>))>>) >>

VARIABLES a, b, c
NoT == Clock

Init == \/ \E i, j \in 1 .. Len(Universe) : a = Universe[i] /\ b = Universe[j] /\ c = <<>>
        \/ \E i, j, l \in 1 .. Len(TripleU) : a = TripleU[i] /\ b = TripleU[j] /\ c = <<TripleU[l]>>
Next == UNCHANGED <<a, b, c>>

RECURSIVE AllKnown(_)
AllKnown(t) == CASE t.t = "vec" -> AllKnown(t.b)
                 [] t.t = "bundle" -> \A i \in 1 .. Len(t.f) : AllKnown(t.f[i].ty)
                 [] t.t = "fixed" -> FixedKnown(t)
                 [] OTHER -> ~HasWidth(t) \/ t.w # Unknown
RECURSIVE SameShape(_, _)                \* only widths differ
SameShape(x, y) == TypeEq(x, y)

Equivalence == /\ TypeEq(a, a)
               /\ TypeEq(a, b) = TypeEq(b, a)
               /\ WeakEq(a, b) = WeakEq(b, a)
               /\ TypeEq(a, b) => WeakEq(a, b)
Transitive == c # <<>> => /\ TypeEq(a, b) /\ TypeEq(b, c[1]) => TypeEq(a, c[1])
                          /\ WeakEq(a, b) /\ WeakEq(b, c[1]) => WeakEq(a, c[1])
Flipping == /\ OFlipped(OFlipped(Orient(a, FALSE))) = Orient(a, FALSE)
            /\ OFlipped(Orient(a, FALSE)) = Orient(a, TRUE)
            /\ Passive(a) => OPassive(Orient(a, FALSE))
            /\ WeakEq(a, b) => OEq(Orient(a, TRUE), Orient(b, TRUE))
Merging == /\ Merge(a, b).ok = TypeEq(a, b)
           /\ Merge(a, b) = Merge(b, a)
           /\ AllKnown(a) => Merge(a, a) = OkType(a)
           /\ Merge(a, b).ok => TypeEq(Merge(a, b).v, a)
Associative ==
  c # <<>> /\ AllKnown(a) /\ AllKnown(b) /\ AllKnown(c[1]) =>
    LET l == Merge(a, b)  r == Merge(b, c[1]) IN
    l.ok /\ r.ok => Merge(l.v, c[1]) = Merge(a, r.v)

ASSUME PrintT("EMIT " \o ToJson([u |-> Universe, t |-> TripleU]))
=============================================================================
