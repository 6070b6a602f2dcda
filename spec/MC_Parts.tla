------------------------------ MODULE MC_Parts ------------------------------
(* Parts of circuits: what the writer makes of them is read as the very     *)
(* same part, whatever the part; so different parts are written differently.*)
EXTENDS FWriter, FPart, Json, IOUtils, SequencesExt

Thorough == IOEnv.TIER = "thorough"
F(n, t) == Field(n, FALSE, t)
R(n, t) == Field(n, TRUE, t)

---------------------------------------------------------------------------
Ws == {Unknown, 0, 1, 10, 65535}
Grounds == {UInt(w) : w \in Ws} \cup {SInt(w) : w \in Ws} \cup {Analog(w) : w \in Ws}
           \cup {Fixed(w, p) : w \in Ws, p \in {<<>>, <<0>>, <<7>>, <<-3>>, <<-32768>>, <<32767>>}}
           \cup {Clock, Reset, AReset}
Cores == {UInt(Unknown), UInt(8), SInt(2), Fixed(4, <<-1>>), Fixed(Unknown, <<2>>), Analog(1), Clock, AReset}
FNames == {"a", "flip", "0", "UInt", "é"}
L1 == {Vec(t, n) : t \in Cores, n \in {0, 3, 65535}}
      \cup {Bundle(<<>>)}
      \cup {Bundle(<<Field(n, x, t)>>) : n \in FNames, x \in BOOLEAN, t \in Cores}
      \cup {Bundle(<<Field("a", x, t), Field("b", y, u)>>) : x, y \in BOOLEAN, t, u \in {UInt(Unknown), Clock, Fixed(Unknown, <<2>>)}}
Some1 == {Vec(UInt(8), 3), Vec(Clock, 0), Bundle(<<>>), Bundle(<<R("flip", SInt(2))>>), Bundle(<<F("a", Clock), R("b", UInt(Unknown))>>)}
L2 == {Vec(t, n) : t \in Some1, n \in {0, 7}}
      \cup {Bundle(<<Field(n, x, t)>>) : n \in {"a", "flip"}, x \in BOOLEAN, t \in Some1}
      \cup {Bundle(<<F("x", t), R("y", u), F("x", v)>>) : t, u \in Some1, v \in IF Thorough THEN Some1 \cup Cores ELSE {Clock}}
Types == Grounds \cup L1 \cup L2

---------------------------------------------------------------------------
Port(n, dir, ty, info) == [k |-> "port", n |-> n, dir |-> dir, ty |-> ty, info |-> info]
Ref(d, n) == [e |-> "ref", n |-> n, d |-> d]
U(v, w) == [e |-> "uint", v |-> v, w |-> w]
S(v, w) == [e |-> "sint", v |-> v, w |-> w]
Decls == << Port("a", "input", UInt(1), <<>>), [k |-> "wire", n |-> "mux", ty |-> Vec(UInt(1), 2)],
            [k |-> "node", n |-> "UInt", v |-> U("1", 1)], Port("b_2", "output", Bundle(<<F("x", Clock)>>), <<>>) >>
SMem(n, ty, k, r) == [n |-> n, ty |-> ty, kind |-> k, ruw |-> r]
Mod(n) == [n |-> n, kind |-> "module", info |-> <<>>, ports |-> <<>>, body |-> <<>>, defname |-> <<>>, params |-> <<>>]
Env == [decls |-> Decls, smems |-> << SMem("s", Vec(UInt(1), 4), "cmem", <<>>), SMem("of", UInt(2), "smem", <<>>) >>,
        mods |-> << Mod("M"), Mod("of") >>]
Scope == EnvScope(Env)

Refs0 == {Ref(i, Decls[i].n) : i \in 1 .. Len(Decls)}
Lits == {U("0", 0), U("ff", 8), U("1", 65535), U("fedcba98765432100", 70), S("0", 1), S("-1", 1), S("-8", 4), S("7f", 8)}
Atoms == Refs0 \cup Lits
Args0 == {Ref(1, "a"), Ref(2, "mux"), Ref(3, "UInt"), U("ff", 8), S("-8", 4)}
Few == {Ref(1, "a"), S("-8", 4)}
Op(o, x, p) == [e |-> "op", op |-> o, x |-> x, p |-> p]
Uns == OpNames \ (Binary \cup UnaryN \cup UnaryP \cup {"bits"})
OpsOf(A, B) ==
  {Op(o, <<x, y>>, <<>>) : o \in Binary, x \in A, y \in B} \cup {Op(o, <<x>>, <<>>) : o \in Uns, x \in A}
  \cup {Op(o, <<x>>, <<n>>) : o \in UnaryN, x \in A, n \in {0, 65535}}
  \cup {Op(o, <<x>>, <<n>>) : o \in UnaryP, x \in A, n \in {0, -32768, 32767}}
  \cup {Op("bits", <<x>>, <<h, l>>) : x \in A, h, l \in {0, 9, 65535}}
Sels(A, B) ==
  {[e |-> "field", b |-> x, n |-> n] : x \in A, n \in FNames} \cup {[e |-> "index", b |-> x, i |-> i] : x \in A, i \in {0, 65535}}
  \cup {[e |-> "access", b |-> x, x |-> y] : x \in A, y \in B}
  \cup {[e |-> "mux", s |-> x, a |-> y, b |-> z] : x \in A, y, z \in B}
  \cup {[e |-> "validif", s |-> x, v |-> y] : x \in A, y \in B}
E1 == OpsOf(Args0, Few) \cup Sels(Args0, Args0)
Mid == {Op("add", <<Ref(1, "a"), Ref(2, "mux")>>, <<>>), Op("bits", <<Ref(3, "UInt")>>, <<9, 0>>), Op("asFixed", <<U("ff", 8)>>, <<-3>>),
        [e |-> "field", b |-> Ref(4, "b_2"), n |-> "flip"], [e |-> "index", b |-> Ref(2, "mux"), i |-> 1],
        [e |-> "access", b |-> Ref(2, "mux"), x |-> Ref(1, "a")], [e |-> "mux", s |-> Ref(1, "a"), a |-> U("0", 1), b |-> S("-1", 2)]}
E2 == OpsOf(Mid, IF Thorough THEN Mid \cup Few ELSE {Ref(1, "a")}) \cup Sels(Mid, IF Thorough THEN Mid \cup Few ELSE {Ref(1, "a"), S("-8", 4)})
Exprs == Atoms \cup E1 \cup E2

---------------------------------------------------------------------------
EntNames == {"a", "of", "with", "reg", "_1"}
Infos == {<<>>, <<"">>, <<"x y">>, <<"]\\\n@[">>}
Xs == {Ref(1, "a"), Ref(2, "mux"), S("-8", 4), Op("asFixed", <<U("ff", 8)>>, <<-3>>), [e |-> "access", b |-> Ref(2, "mux"), x |-> Ref(1, "a")]}
SomeT == {UInt(Unknown), Fixed(4, <<-1>>), Vec(Clock, 0), Bundle(<<F("a", Clock), R("b", UInt(Unknown))>>)}
Ents == {Port(n, d, t, i) : n \in EntNames, d \in {"input", "output"}, t \in SomeT, i \in Infos}
        \cup {[k |-> "reg", n |-> n, ty |-> t, clk |-> x, rst |-> <<>>] : n \in EntNames, t \in SomeT, x \in Xs}
        \cup {[k |-> "reg", n |-> n, ty |-> t, clk |-> x, rst |-> <<[s |-> y, v |-> z]>>] :
                n \in {"with"}, t \in {UInt(Unknown), Vec(Clock, 0)}, x, y, z \in Xs}
        \cup {[k |-> "mport", n |-> n, m |-> Env.smems[m].n, md |-> m, dir |-> d, addr |-> x, clk |-> y] :
                n \in {"a", "of"}, m \in {1, 2}, d \in {"read", "write", "rdwr", "infer"}, x, y \in Xs}
        \cup {[k |-> "inst", n |-> n, of |-> Env.mods[m].n, mi |-> m] : n \in EntNames, m \in {1, 2}}
SMems == {SMem(n, t, "cmem", <<>>) : n \in EntNames, t \in SomeT}
         \cup {SMem(n, t, "smem", r) : n \in EntNames, t \in SomeT, r \in {<<>>, <<"old">>, <<"new">>, <<"undefined">>}}
MemPorts == {[n |-> n, d |-> d] : n \in EntNames, d \in {"read", "write", "rdwr"}}
Params == {[int |-> i] : i \in {"0", "-1", "10", "9223372036854775807", "-9223372036854775808"}}
          \cup {[str |-> s] : s \in {"", "a", "\"", "'", "\\", "\n", "\t", "\\n", "é%", "1"}}
          \cup {[dbl |-> [neg |-> m, d |-> d, x |-> x]] : m \in BOOLEAN, d \in {"1", "15", "123456789"}, x \in {0, -1, 3, -20, 30}}

Of(k, ds) == {[k |-> k, d |-> x] : x \in ds}
Parts == Of("type", Types) \cup Of("ground", Grounds) \cup Of("field", UNION {ToSet(t.f) : t \in {u \in Types : u.t = "bundle"}})
         \cup Of("expr", Exprs) \cup Of("op", {x \in Exprs : x.e = "op"}) \cup Of("ent", Ents) \cup Of("smem", SMems)
         \cup Of("memport", MemPorts) \cup Of("param", Params)
         \cup Of("dir", {"input", "output"}) \cup Of("ruw", {"old", "new", "undefined"})

WPart(k, d) ==
  CASE k \in {"type", "ground"} -> WType(d)
    [] k = "field" -> WField(d)
    [] k \in {"expr", "op"} -> WExpr(d)
    [] k = "param" -> WParam(d)
    [] k = "memport" -> WMemPort(d)
    [] k = "smem" -> WSMem(d)
    [] k = "ent" -> IF d.k = "port" THEN WPort(d) ELSE WEnt(d)
    [] k \in {"dir", "ruw"} -> d
LexOf(s) == Lex([i \in 1 .. Len(s) |-> Ch(s, i)])

VARIABLE x
Init == x \in Parts
Next == UNCHANGED x
ReadsBack ==
  LET t == LexOf(WPart(x.k, x.d))  r == ReadPart(t, x.k, x.d, Scope) IN
  /\ r.ok /\ r.p = t.n + 1
  /\ CASE x.k = "memport" -> r.v = [key |-> KeyOf(x.d.d), v |-> x.d.n]
       [] x.k = "param" -> SameValue(r.v, x.d)
       [] x.k \in {"dir", "ruw"} -> r.v = x.d
       [] OTHER -> r.v = x.d
  /\ SamePart(x.k, x.d, x.d)

ASSUME PrintT("ENV " \o ToJson(Env))
Emit == PrintT("EMIT " \o ToJson(x))
=============================================================================
