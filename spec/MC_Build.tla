------------------------------ MODULE MC_Build ------------------------------
(* All short histories of constructors, setters and adders of each kind of  *)
(* value. Every step changes the part it names, and no other. Histories are *)
(* emitted.                                                                 *)
EXTENDS FBuild, Json, IOUtils

Longest == IF IOEnv.TIER = "thorough" THEN 5 ELSE IF IOEnv.KIND = "module" THEN 3 ELSE 4
Clk == [e |-> "ref", n |-> "clk", d |-> 1]
Rst == [e |-> "ref", n |-> "rst", d |-> 2]
One == [e |-> "uint", v |-> "1", w |-> 3]
PortA == [k |-> "port", n |-> "a", dir |-> "output", ty |-> UInt(3), info |-> <<"pi">>]
Env == [decls |-> << [k |-> "port", n |-> "clk", dir |-> "input", ty |-> Clock, info |-> <<>>],
                     [k |-> "port", n |-> "rst", dir |-> "input", ty |-> Reset, info |-> <<>>] >>,
        smems |-> << [n |-> "sm", ty |-> Vec(UInt(4), 2), kind |-> "smem", ruw |-> <<"new">>] >>,
        mods |-> << [n |-> "M", kind |-> "module", info |-> <<>>, ports |-> <<PortA>>, body |-> <<>>, defname |-> <<>>, params |-> <<>>],
                    [n |-> "X", kind |-> "extmodule", info |-> <<"i">>, ports |-> <<>>, body |-> <<>>, defname |-> <<"d">>, params |-> <<>>] >>]

Infos == {[a |-> x, info |-> i] : x \in {"with_info", "set_info"}, i \in {<<>>, <<"one">>, <<"">>}} \cup {[a |-> "clear_info"]}
Skip1 == [s |-> "skip", info |-> <<"x">>]
Regular(b) == [kind |-> "module", body |-> b, defname |-> <<>>, params |-> <<>>]
External(d, p) == [kind |-> "extmodule", body |-> <<>>, defname |-> d, params |-> p]

News == CASE IOEnv.KIND = "mem" -> {[a |-> "new_mem", n |-> "m", ty |-> Vec(UInt(2), 3), depth |-> d] : d \in {"0", "18446744073709551615"}}
          [] IOEnv.KIND = "reg" -> {[a |-> "new_reg", n |-> "r", ty |-> SInt(4), clk |-> c] : c \in {Clk, One}}
          [] IOEnv.KIND = "port" -> {[a |-> "new_port", n |-> "p", ty |-> Analog(4), dir |-> d] : d \in {"input", "output"}}
          [] IOEnv.KIND = "module" -> {[a |-> "new_module", n |-> "n", kind |-> k, ports |-> ps] :
                                        k \in {"module", "extmodule"}, ps \in {<<>>, <<PortA, [PortA EXCEPT !.n = "b", !.dir = "input"]>>}}
          [] IOEnv.KIND = "field" -> {[a |-> "new_field", n |-> "f", ty |-> t] : t \in {Clock, Bundle(<<Field("x", TRUE, Reset)>>)}}
          [] IOEnv.KIND = "circuit" -> {[a |-> "new_circuit", i |-> i] : i \in 1 .. 2}
          [] IOEnv.KIND = "stmt" -> {[a |-> "new_stmt", t |-> t] :
               t \in {Skip1, [s |-> "inval", x |-> Clk, info |-> <<>>],
                      [s |-> "stop", clk |-> Clk, c |-> Rst, code |-> "-3", name |-> <<"st">>, info |-> <<>>],
                      [s |-> "when", c |-> Rst, t |-> <<Skip1>>, f |-> <<Skip1, Skip1>>, info |-> <<"w">>]}}
          [] IOEnv.KIND = "other" -> {[a |-> "new_smem", m |-> [n |-> "s", ty |-> Vec(UInt(1), 2), kind |-> "smem", ruw |-> r]] : r \in {<<>>, <<"old">>, <<"undefined">>}}
               \cup {[a |-> "new_smem", m |-> [n |-> "s", ty |-> Clock, kind |-> "cmem", ruw |-> <<>>]]}
               \cup {[a |-> "new_mport", m |-> [k |-> "mport", n |-> "q", m |-> "sm", md |-> 1, dir |-> d, addr |-> One, clk |-> Clk]] : d \in {"read", "write", "rdwr", "infer"}}
               \cup {[a |-> "new_inst", n |-> "i", i |-> i] : i \in 1 .. 2}
Steps == CASE IOEnv.KIND = "mem" ->
                {[a |-> x, v |-> v] : x \in {"rl", "wl"}, v \in {0, 65535}} \cup {[a |-> "ruw", to |-> v] : v \in {"old", "new", "undefined"}}
                \cup {[a |-> "add_port", p |-> [n |-> n, d |-> d]] : n \in {"x"}, d \in {"read", "write", "rdwr"}}
                \cup {[a |-> "add_ports", ps |-> ps] : ps \in {<<>>, <<[n |-> "y", d |-> "rdwr"], [n |-> "z", d |-> "read"]>>}}
           [] IOEnv.KIND = "reg" -> {[a |-> "with_reset", s |-> s, v |-> v] : s \in {Rst, One}, v \in {One}}
                \cup {[a |-> "opt_reset", r |-> r] : r \in {<<>>, <<[s |-> One, v |-> Rst]>>}} \cup {[a |-> "without_reset"]}
           [] IOEnv.KIND \in {"port", "circuit", "stmt"} -> Infos
           [] IOEnv.KIND = "module" -> Infos
                \cup {[a |-> "push", t |-> t] : t \in {Skip1, [Skip1 EXCEPT !.info = <<>>]}}
                \cup {[a |-> "kind", m |-> m] : m \in {Regular(<<Skip1>>), External(<<"dn">>, <<[k |-> "p", v |-> [int |-> "-1"]]>>), External(<<>>, <<>>)}}
           [] IOEnv.KIND = "field" -> {[a |-> "type", ty |-> t] : t \in {UInt(1), Vec(Clock, 2)}} \cup {[a |-> "orient", flip |-> f] : f \in BOOLEAN} \cup {[a |-> "flipped"]}
           [] IOEnv.KIND = "other" -> {}

VARIABLES b, h
Init == \E n \in News : b = NewValue(n) /\ h = <<n>>
Next == Len(h) <= Longest /\ \E st \in Steps : b' = BuildStep(b, st) /\ h' = Append(h, st)

Named(st) ==                             \* the parts a step may change
  CASE st.a \in {"add_port", "add_ports"} -> {"ports"}
    [] st.a \in {"rl", "wl", "ruw"} -> {st.a}
    [] st.a \in {"with_reset", "opt_reset", "without_reset"} -> {"rst"}
    [] st.a \in {"with_info", "set_info", "clear_info"} -> {"info"}
    [] st.a = "push" -> {"body"}
    [] st.a = "kind" -> {"kind", "body", "defname", "params"}
    [] st.a = "type" -> {"ty"} [] st.a \in {"orient", "flipped"} -> {"flip"}
    [] OTHER -> {}
Frame == [][/\ DOMAIN b'.v = DOMAIN b.v
            /\ \A f \in DOMAIN b.v : f \in Named(h'[Len(h')]) \/ b'.v[f] = b.v[f]]_<<b, h>>
(* Ports stay in the order of their addition.                               *)
Grows == [][IOEnv.KIND = "mem" => SubSeq(b'.v.ports, 1, Len(b.v.ports)) = b.v.ports]_<<b, h>>
(* The same setter twice: the last one counts.                              *)
Overwrites == \A st \in Steps : st.a \notin {"add_port", "add_ports", "push", "flipped"} =>
                BuildStep(BuildStep(b, st), st) = BuildStep(b, st)
Emit == Len(h) = Longest + 1 \/ Steps = {} => PrintT("EMIT " \o ToJson(h))
ASSUME PrintT("ENV " \o ToJson(Env))
=============================================================================
