------------------------------- MODULE FBuild -------------------------------
(* Constructors, setters and adders as a machine over one value. States are *)
(* documents as in FExpr, each with the kind of value they describe.        *)
EXTENDS FExpr

Built(k, v) == [k |-> k, v |-> v]

NewValue(st) ==
  CASE st.a = "new_mem" ->
         Built("mem", [k |-> "mem", n |-> st.n, ty |-> st.ty, depth |-> st.depth, ports |-> <<>>,
                       rl |-> 0, wl |-> 0, ruw |-> "undefined"])
    [] st.a = "new_reg" ->
         Built("reg", [k |-> "reg", n |-> st.n, ty |-> st.ty, clk |-> st.clk, rst |-> <<>>])
    [] st.a = "new_port" ->
         Built("port", [k |-> "port", n |-> st.n, dir |-> st.dir, ty |-> st.ty, info |-> <<>>])
    [] st.a = "new_module" ->
         Built("module", [n |-> st.n, kind |-> st.kind, info |-> <<>>, ports |-> st.ports,
                          body |-> <<>>, defname |-> <<>>, params |-> <<>>])
    [] st.a = "new_field" -> Built("field", [n |-> st.n, flip |-> FALSE, ty |-> st.ty])
    [] st.a = "new_circuit" -> Built("circuit", [top |-> st.i, info |-> <<>>])
    [] st.a = "new_stmt" -> Built("stmt", [st.t EXCEPT !.info = st.t.info])
    [] st.a = "new_smem" -> Built("smem", st.m)
    [] st.a = "new_mport" -> Built("mport", st.m)
    [] st.a = "new_inst" -> Built("inst", [n |-> st.n, mi |-> st.i])

IsNew(st) == st.a \in {"new_mem", "new_reg", "new_port", "new_module", "new_field", "new_circuit",
                       "new_stmt", "new_smem", "new_mport", "new_inst"}

BuildStep(b, st) ==
  IF IsNew(st) THEN NewValue(st)
  ELSE CASE st.a = "add_port" -> [b EXCEPT !.v.ports = Append(@, st.p)]
         [] st.a = "add_ports" -> [b EXCEPT !.v.ports = @ \o st.ps]
         [] st.a = "rl" -> [b EXCEPT !.v.rl = st.v]
         [] st.a = "wl" -> [b EXCEPT !.v.wl = st.v]
         [] st.a = "ruw" -> [b EXCEPT !.v.ruw = st.to]
         [] st.a = "with_reset" -> [b EXCEPT !.v.rst = <<[s |-> st.s, v |-> st.v]>>]
         [] st.a = "opt_reset" -> [b EXCEPT !.v.rst = st.r]
         [] st.a = "without_reset" -> [b EXCEPT !.v.rst = <<>>]
         [] st.a \in {"with_info", "set_info"} -> [b EXCEPT !.v.info = st.info]
         [] st.a = "clear_info" -> [b EXCEPT !.v.info = <<>>]
         [] st.a = "kind" -> [b EXCEPT !.v.kind = st.m.kind, !.v.body = st.m.body,
                                       !.v.defname = st.m.defname, !.v.params = st.m.params]
         [] st.a = "push" -> IF b.v.kind = "module" THEN [b EXCEPT !.v.body = Append(@, st.t)] ELSE b
         [] st.a = "type" -> [b EXCEPT !.v.ty = st.ty]
         [] st.a = "orient" -> [b EXCEPT !.v.flip = st.flip]
         [] st.a = "flipped" -> [b EXCEPT !.v.flip = ~@]

(* What an observer sees of it.                                             *)
Shown(b) == IF b.k \in {"port", "field"} THEN [v |-> b.v, t |-> b.v.ty] ELSE b.v
=============================================================================
