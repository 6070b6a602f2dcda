------------------------------ MODULE MC_Write ------------------------------
(* Circuits grow statement by statement; what the writer makes of them is   *)
(* read by the parser machine as the very same circuit. KIND selects which  *)
(* statements there are: "all" kinds, or those which make "shape".          *)
EXTENDS FWriter, FParser, Json, IOUtils, SequencesExt

Thorough == IOEnv.TIER = "thorough"
Shape == IOEnv.KIND = "shape"
Longest == IF Shape THEN (IF Thorough THEN 7 ELSE 5) ELSE (IF Thorough THEN 3 ELSE 2)
Deepest == 3

F(n, t) == Field(n, FALSE, t)
Port(n, dir, ty, info) == [k |-> "port", n |-> n, dir |-> dir, ty |-> ty, info |-> info]
Ports == << Port("a", "input", UInt(1), <<>>), Port("c", "input", Clock, <<"p">>), Port("elsewhen", "output", UInt(Unknown), <<>>) >>
Ext == [n |-> "E", kind |-> "extmodule", info |-> <<"e">>, ports |-> <<Port("q", "output", Bundle(<<F("x", UInt(2))>>), <<>>)>>, body |-> <<>>,
        defname |-> <<"E_1">>, params |-> << [k |-> "p", v |-> [int |-> "-3"]], [k |-> "s", v |-> [str |-> "x\"y"]] >>]

(* decls, smems: what was declared so far; st: open branches, outermost     *)
(* first: [c, info, t, f, e], e telling whether in the else branch; out:    *)
(* the statements in front of them; n: how many steps were made.            *)
VARIABLES decls, smems, out, st, n
vars == <<decls, smems, out, st, n>>
Init == decls = Ports /\ smems = <<>> /\ out = <<>> /\ st = <<>> /\ n = 0

Latest(ds, x) == LET is == {i \in 1 .. Len(ds) : ds[i].n = x} IN FirstEqual(ds, ds[CHOOSE i \in is : \A j \in is : j <= i])
IsKnown(ds, x) == \E i \in 1 .. Len(ds) : ds[i].n = x
Ref(x) == [e |-> "ref", n |-> x, d |-> Latest(decls, x)]
One == [e |-> "uint", v |-> "1", w |-> 1]

Put(s) ==                                \* into the innermost open branch
  IF st = <<>> THEN out' = Append(out, s) /\ UNCHANGED st
  ELSE /\ st' = [st EXCEPT ![Len(st)] = IF @.e THEN [@ EXCEPT !.f = Append(@, s)] ELSE [@ EXCEPT !.t = Append(@, s)]]
       /\ UNCHANGED out

(* Closing needs a statement in the branch; so does switching to the other. *)
Filled == st # <<>> /\ LET b == st[Len(st)] IN IF b.e THEN b.f # <<>> ELSE b.t # <<>>
Closed1(b) == [s |-> "when", c |-> b.c, t |-> b.t, f |-> b.f, info |-> b.info]
RECURSIVE Collapse(_, _)
Collapse(o, s) ==                        \* the body if all branches ended here
  IF s = <<>> THEN o
  ELSE LET b == s[Len(s)]
           w == Closed1(IF b.e THEN b ELSE [b EXCEPT !.t = IF @ = <<>> THEN <<[s |-> "skip", info |-> <<>>]>> ELSE @])
           r == SubSeq(s, 1, Len(s) - 1)
       IN IF r = <<>> THEN Append(o, w)
          ELSE Collapse(o, [r EXCEPT ![Len(r)] = IF @.e THEN [@ EXCEPT !.f = Append(@, w)] ELSE [@ EXCEPT !.t = Append(@, w)]])

D(e) == [s |-> "decl", ent |-> e, info |-> <<>>]
I(s, i) == [s EXCEPT !.info = i]
SkipS == [s |-> "skip", info |-> <<>>]
Conn == [s |-> "conn", to |-> Ref("elsewhen"), from |-> Ref("a"), info |-> <<>>]
Mem(ps) == [k |-> "mem", n |-> "m", ty |-> UInt(3), depth |-> "16", ports |-> ps, rl |-> 0, wl |-> 1, ruw |-> "old"]
Decls ==                                 \* declarations possible now
  {D([k |-> "wire", n |-> "w", ty |-> UInt(1)]), D([k |-> "wire", n |-> "w", ty |-> Clock]), D([k |-> "wire", n |-> "a", ty |-> SInt(4)]),
   D([k |-> "reg", n |-> "r", ty |-> UInt(Unknown), clk |-> Ref("c"), rst |-> <<>>]),
   I(D([k |-> "reg", n |-> "r", ty |-> UInt(2), clk |-> Ref("c"), rst |-> <<[s |-> Ref("a"), v |-> One]>>]), <<"r">>),
   D([k |-> "node", n |-> "w", v |-> Ref("a")]),
   D(Mem(<<>>)), I(D(Mem(<< [n |-> "x", d |-> "read"], [n |-> "y", d |-> "rdwr"] >>)), <<"m">>),
   D([k |-> "inst", n |-> "i", of |-> "E", mi |-> 1])}
  \cup {D([k |-> "node", n |-> "z", v |-> Ref("w")]) : y \in IF IsKnown(decls, "w") THEN {1} ELSE {}}
  \cup {D([k |-> "mport", n |-> "w", m |-> "s", md |-> Latest(smems, "s"), dir |-> d, addr |-> Ref("a"), clk |-> Ref("c")]) :
          d \in IF IsKnown(smems, "s") THEN {"infer", "read"} ELSE {}}
SMemS == {[s |-> "smem", m |-> [n |-> "s", ty |-> Vec(UInt(1), 4), kind |-> k, ruw |-> <<>>], info |-> <<>>] : k \in {"cmem", "smem"}}
         \cup {[s |-> "smem", m |-> [n |-> "s", ty |-> Vec(UInt(1), 4), kind |-> "smem", ruw |-> <<"new">>], info |-> <<"s">>]}
Plain == {SkipS, I(SkipS, <<"k">>), Conn, I(Conn, <<"c]">>),
          [s |-> "pconn", to |-> Ref("a"), from |-> Ref("elsewhen"), info |-> <<>>],
          [s |-> "inval", x |-> Ref("elsewhen"), info |-> <<>>], [s |-> "inval", x |-> Ref("a"), info |-> <<"i">>],
          [s |-> "attach", xs |-> <<Ref("a")>>, info |-> <<>>], [s |-> "attach", xs |-> <<Ref("a"), Ref("c")>>, info |-> <<"a">>],
          [s |-> "stop", clk |-> Ref("c"), c |-> Ref("a"), code |-> "-1", name |-> <<>>, info |-> <<>>],
          [s |-> "stop", clk |-> Ref("c"), c |-> Ref("a"), code |-> "2", name |-> <<"stop">>, info |-> <<"t">>],
          [s |-> "print", clk |-> Ref("c"), c |-> One, msg |-> <<>>, name |-> <<>>, info |-> <<>>],
          [s |-> "print", clk |-> Ref("c"), c |-> One, msg |-> << [lit |-> "50%\n"], [x |-> Ref("a"), f |-> "x"], [lit |-> "d"], [x |-> One, f |-> "c"] >>,
           name |-> <<"when">>, info |-> <<"f">>]}
Simple == IF Shape THEN {SkipS, Conn} ELSE Plain
Declaring == IF Shape THEN {D([k |-> "wire", n |-> "a", ty |-> SInt(4)])} ELSE Decls

AddPlain == \E s \in Simple : Put(s) /\ UNCHANGED <<decls, smems>>
AddDecl == \E s \in Declaring : Put(s) /\ decls' = Append(decls, s.ent) /\ UNCHANGED smems
AddSMem == ~Shape /\ \E s \in SMemS : Put(s) /\ smems' = Append(smems, s.m) /\ UNCHANGED decls
Open == /\ Len(st) < Deepest
        /\ \E i \in {<<>>, <<"w">>} : st' = Append(st, [c |-> Ref("a"), info |-> i, t |-> <<>>, f |-> <<>>, e |-> FALSE])
        /\ UNCHANGED <<decls, smems, out>>
Else == Filled /\ ~st[Len(st)].e /\ st' = [st EXCEPT ![Len(st)].e = TRUE] /\ UNCHANGED <<decls, smems, out>>
Close == /\ Filled
         /\ LET w == Closed1(st[Len(st)])  r == SubSeq(st, 1, Len(st) - 1) IN
            IF r = <<>> THEN out' = Append(out, w) /\ st' = r
            ELSE /\ st' = [r EXCEPT ![Len(r)] = IF @.e THEN [@ EXCEPT !.f = Append(@, w)] ELSE [@ EXCEPT !.t = Append(@, w)]]
                 /\ UNCHANGED out
         /\ UNCHANGED <<decls, smems>>
Next == n < Longest /\ n' = n + 1 /\ (AddPlain \/ AddDecl \/ AddSMem \/ Open \/ Else \/ Close)

Body == Collapse(out, st)
Main == [n |-> "M", kind |-> "module", info |-> <<>>, ports |-> Ports, body |-> Body, defname |-> <<>>, params |-> <<>>]
Circuit == << Ext, Main >>

RECURSIVE ReadAll(_, _)
ReadAll(p, t) == IF p.ph = "done" THEN p ELSE ReadAll(Step(p, t), t)
LexOf(s) == Lex([i \in 1 .. Len(s) |-> Ch(s, i)])
SameAs(text) == LET p == ReadAll(InitCircuit, LexOf(text)) IN
  /\ Accepted(p) /\ p.own = Circuit /\ p.info = <<"top">> /\ TopIdx(p) = 2
ReadsBack == SameAs(WCircuit(Circuit, "M", <<"top">>, TRUE)) /\ SameAs(WCircuit(Circuit, "M", <<"top">>, FALSE))
Emit == PrintT("EMIT " \o ToJson(Circuit))
=============================================================================
