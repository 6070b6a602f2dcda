------------------------------ MODULE MC_Iface ------------------------------
(* Interfaces of memories and instances: all short port lists over data     *)
(* types of every shape, and depths around powers of two.                   *)
EXTENDS FExpr, Json, IOUtils

Thorough == IOEnv.TIER = "thorough"
MaxPorts == IF Thorough THEN 4 ELSE 3

F(n, t) == Field(n, FALSE, t)
R(n, t) == Field(n, TRUE, t)
Datas == << UInt(8), SInt(-1), Fixed(4, <<2>>), Analog(1), Clock, Vec(UInt(3), 2), Bundle(<<>>),
            Bundle(<< F("data", SInt(2)), R("mask", Vec(Reset, 0)) >>),
            Vec(Bundle(<< R("r", Bundle(<< F("x", AReset), R("y", Fixed(-1, <<>>)) >>)), F("s", UInt(65535)) >>), 2) >>
Depths == << "0", "1", "2", "3", "4", "5", "7", "8", "9", "255", "256", "257", "65535", "65536", "65537",
             "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "9223372036854775809",
             "18446744073709551615" >>
Small(d) == CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4 [] d = "5" -> 5 [] d = "7" -> 7
              [] d = "8" -> 8 [] d = "9" -> 9 [] d = "255" -> 255 [] d = "256" -> 256 [] d = "257" -> 257 [] d = "65535" -> 65535
              [] d = "65536" -> 65536 [] d = "65537" -> 65537 [] OTHER -> -1
Names == << "r", "w", "rw", "data" >>
Dirs == << "read", "write", "rdwr" >>

VARIABLES what, ps, di, dd                \* kind, ports, data type, depth
Init == /\ what \in {"mem", "inst"} /\ ps = <<>>
        /\ IF what = "mem" THEN di \in 1 .. Len(Datas) /\ dd \in 1 .. Len(Depths) ELSE di = 1 /\ dd = 1
Next == /\ Len(ps) < MaxPorts
        /\ \/ what = "mem" /\ (Len(ps) = 0 \/ dd \in {1, 6, 21} \/ (di = 1 /\ Thorough)) /\ (Len(ps) < 2 \/ dd = 6)
              /\ \E d \in 1 .. 3 : ps' = Append(ps, [n |-> Names[Len(ps) + 1], d |-> Dirs[d]])
           \/ what = "inst" /\ Len(ps) < (IF Thorough THEN 3 ELSE 2)
              /\ \E d \in {"input", "output"}, t \in 1 .. Len(Datas), n \in {"p", "q"} :
                   ps' = Append(ps, [k |-> "port", n |-> n, dir |-> d, ty |-> Datas[t], info |-> <<>>])
        /\ UNCHANGED <<what, di, dd>>

T == IF what = "mem" THEN MemType(Datas[di], AddrWidth(Depths[dd]), ps) ELSE InstType(ps)

RECURSIVE Leaves(_)                       \* oriented leaves in order
Leaves(o) ==
  CASE o.t = "leaf" -> <<o>>
    [] o.t = "vec" -> Leaves(o.b)
    [] o.t = "bundle" -> LET f[i \in 0 .. Len(o.f)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o Leaves(o.f[i].ty) IN f[Len(o.f)]
LeavesOf(t, flip) == Leaves(Orient(t, flip))

InOrder == Len(T.f) = Len(ps) /\ \A i \in 1 .. Len(ps) : T.f[i].n = ps[i].n

(* The outside drives what the memory or module takes in: such leaves are   *)
(* flipped, all others are not.                                             *)
Driven(i) ==
  LET p == ps[i]  d == Datas[di]
      sub(n) == LET j == FieldIdx(T.f[i].ty, n) IN LeavesOf(Bundle(<<T.f[i].ty.f[j]>>), T.f[i].flip)
  IN IF what = "inst"
     THEN LeavesOf(Bundle(<<T.f[i]>>), FALSE) = LeavesOf(p.ty, p.dir = "input")
     ELSE /\ \A n \in {"addr", "en", "clk"} : \A l \in {sub(n)[k] : k \in 1 .. Len(sub(n))} : l.flip
          /\ p.d = "read"  => sub("data") = LeavesOf(d, FALSE)
          /\ p.d = "write" => sub("data") = LeavesOf(d, TRUE)
          /\ p.d = "rdwr"  => sub("rdata") = LeavesOf(d, FALSE) /\ sub("wdata") = LeavesOf(d, TRUE)
                              /\ sub("wmode")[1].flip
Interface == \A i \in 1 .. Len(ps) : Driven(i)

(* The mask has one bit per leaf of the data.                               *)
Masks ==
  LET d == Datas[di]  m == Mask(d) IN
  /\ Len(LeavesOf(m, FALSE)) = Len(LeavesOf(d, FALSE))
  /\ \A i \in 1 .. Len(LeavesOf(m, FALSE)) :
       /\ LeavesOf(m, FALSE)[i].g = UInt(1)
       /\ LeavesOf(m, FALSE)[i].flip = LeavesOf(d, FALSE)[i].flip
  /\ Mask(m) = m

Addresses ==
  LET s == Small(Depths[dd])  w == AddrWidth(Depths[dd]) IN
  s >= 0 => 2^w >= s /\ (w > 0 => 2^(w - 1) < s)

ASSUME PrintT("ENV " \o ToJson([datas |-> Datas, depths |-> Depths]))
Emit == PrintT("EMIT " \o ToJson([what |-> what, ps |-> ps, di |-> di, dd |-> dd]))
=============================================================================
