----------------------------- MODULE MC_Access ------------------------------
(* Expressions over declarations of every kind: access paths (existing and  *)
(* not), selections and operations on top of them.                          *)
EXTENDS FExpr, Json, IOUtils

Depth == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3

F(n, t) == Field(n, FALSE, t)
R(n, t) == Field(n, TRUE, t)
Inner == Bundle(<< R("r", UInt(4)), F("v", Vec(Bundle(<< R("r", SInt(2)), F("a", Clock) >>), 3)) >>)
Deep  == Bundle(<< F("a", Inner), R("b", Inner), F("v", Vec(Vec(Inner, 2), 1)) >>)
Ref(d, n) == [e |-> "ref", n |-> n, d |-> d]
Lit(v, w) == [e |-> "uint", v |-> v, w |-> w]
Port(n, dir, ty) == [k |-> "port", n |-> n, dir |-> dir, ty |-> ty, info |-> <<>>]
Child == [n |-> "C", kind |-> "extmodule", info |-> <<>>, defname |-> <<>>, params |-> <<>>, body |-> <<>>,
          ports |-> << Port("a", "input", UInt(3)), Port("b", "output", Inner), Port("v", "input", Vec(Inner, 2)) >>]
SMem(n, ty) == [n |-> n, ty |-> ty, kind |-> "cmem", ruw |-> <<>>]
MPort(n, m, md, dir) == [k |-> "mport", n |-> n, m |-> m, md |-> md, dir |-> dir, addr |-> Lit("0", 1), clk |-> Ref(3, "ck")]

Decls == <<
  Port("i", "input", Deep), Port("o", "output", Deep), Port("ck", "input", Clock), Port("x", "input", UInt(2)),
  [k |-> "wire", n |-> "w", ty |-> Deep],
  [k |-> "reg", n |-> "g", ty |-> Inner, clk |-> Ref(3, "ck"), rst |-> <<>>],
  [k |-> "node", n |-> "nd", v |-> Ref(1, "i")],
  [k |-> "node", n |-> "bad", v |-> [e |-> "field", b |-> Ref(1, "i"), n |-> "none"]],
  [k |-> "mem", n |-> "m", ty |-> Inner, depth |-> "5", rl |-> 0, wl |-> 1, ruw |-> "undefined",
   ports |-> << [n |-> "a", d |-> "read"], [n |-> "b", d |-> "write"], [n |-> "v", d |-> "rdwr"] >>],
  MPort("pr", "s", 1, "read"), MPort("pw", "s", 1, "write"), MPort("pb", "s", 1, "rdwr"), MPort("pi", "s", 1, "infer"),
  MPort("pg", "t", 2, "read"),
  [k |-> "inst", n |-> "c", of |-> "C", mi |-> 1],
  [k |-> "wire", n |-> "u", ty |-> UInt(-1)] >>
Env == [mods |-> <<Child>>, smems |-> << SMem("s", Vec(Deep, 4)), SMem("t", UInt(2)) >>, decls |-> Decls]

Names == {"a", "b", "v", "r", "data", "wdata", "wmask", "mask", "addr", "none"}
Last == {"en", "clk", "wmode", "rdata"}          \* tried at the end of paths only
Sel == Ref(4, "x")

VARIABLES e, n
Init == n = 0 /\ e \in {Ref(d, Decls[d].n) : d \in 1 .. Len(Decls)} \cup {Lit("5", 3), [e |-> "sint", v |-> "-3", w |-> 4]}

Go(x) == x.e \in {"ref", "field", "index", "access"}
Fields == IF TypeOf(Env, e).k = "ok" /\ TypeOf(Env, e).v.t = "bundle" THEN Names \cup Last ELSE {"a"}
Steps == {[e |-> "field", b |-> e, n |-> x] : x \in Fields}
         \cup {[e |-> "index", b |-> e, i |-> i] : i \in {0, 7}}
         \cup {[e |-> "access", b |-> e, x |-> Sel]}
Uses == {[e |-> "mux", s |-> Sel, a |-> e, b |-> o] : o \in {Ref(5, "w"), Ref(6, "g"), Ref(16, "u"), Lit("1", 1), e}}
        \cup {[e |-> "mux", s |-> Sel, a |-> o, b |-> e] : o \in {Ref(5, "w"), Ref(16, "u")}}
        \cup {[e |-> "mux", s |-> e, a |-> Sel, b |-> Sel], [e |-> "validif", s |-> Sel, v |-> e],
              [e |-> "access", b |-> Ref(5, "w"), x |-> e]}
        \cup {[e |-> "op", op |-> op, x |-> <<e, Sel>>, p |-> <<>>] : op \in {"add", "mul", "cat", "rem"}}
        \cup {[e |-> "op", op |-> "sub", x |-> <<Sel, e>>, p |-> <<>>],
              [e |-> "op", op |-> "asSInt", x |-> <<e>>, p |-> <<>>],
              [e |-> "op", op |-> "tail", x |-> <<e>>, p |-> <<1>>]}
Next == /\ n < Depth /\ n' = n + 1
        /\ TypeOf(Env, e).k # "err" \/ n = 0 \/ (n < 3 /\ IOEnv.TIER = "thorough")
        /\ (e' \in Steps \/ ((Go(e) \/ n < 2) /\ e' \in Uses))

---------------------------------------------------------------------------
T == TypeOf(Env, e)

(* An ill-typed expression has a smallest ill-typed part: one all of whose  *)
(* operands are well-typed.                                                 *)
Blame == T.k = "err" =>
  \E i \in 1 .. Len(AllSub(e)) :
    LET x == AllSub(e)[i] IN
    /\ TypeOf(Env, x).k = "err"
    /\ \A j \in 1 .. Len(Sub(x)) : TypeOf(Env, Sub(x)[j]).k # "err"

(* Paths: the root and the steps behind it.                                 *)
RECURSIVE Root(_)
Root(x) == IF x.e = "ref" THEN x ELSE Root(x.b)
RECURSIVE IsPath(_)
IsPath(x) == CASE x.e = "ref" -> TRUE [] x.e \in {"field", "index", "access"} -> IsPath(x.b) [] OTHER -> FALSE

(* Following a path in the leaf-oriented type of its root.                  *)
RECURSIVE Walk(_)
Walk(x) ==
  CASE x.e = "ref" -> LET t == EntType(Env, Decls[x.d]) IN IF t.k = "ok" THEN <<Orient(t.v, FALSE)>> ELSE <<>>
    [] x.e = "field" -> LET b == Walk(x.b) IN
         IF b = <<>> \/ b[1].t # "bundle" THEN <<>>
         ELSE LET is == {i \in 1 .. Len(b[1].f) : b[1].f[i].n = x.n} IN
              IF is = {} THEN <<>> ELSE <<b[1].f[CHOOSE i \in is : TRUE].ty>>
    [] OTHER -> LET b == Walk(x.b) IN IF b = <<>> \/ b[1].t # "vec" THEN <<>> ELSE <<b[1].b>>

(* The flow at a leaf is the root's, turned exactly if the leaf is flipped. *)
FlowOfLeaf ==
  IsPath(e) /\ T.k = "ok" =>
    LET w == Walk(e)  f == EntFlow(Decls[Root(e).d]) IN
    /\ w # <<>>
    /\ w[1].t = "leaf" => /\ w[1].g = T.v
                          /\ FlowOf(Env, e) = IF w[1].flip THEN Turn(f) ELSE f
Missing == IsPath(e) /\ T.k = "err" /\ e.e = "field" => FlowOf(Env, e) = "none"
Computed == T.k = "ok" /\ e.e \in {"mux", "validif", "op", "uint", "sint"} => FlowOf(Env, e) = "source"
MuxIdem == e.e = "mux" /\ e.a = e.b /\ T.k = "ok" => T = TypeOf(Env, e.a)

ASSUME PrintT("ENV " \o ToJson(Env))
Emit == PrintT("EMIT " \o ToJson(e))
=============================================================================
