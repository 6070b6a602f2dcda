------------------------------ MODULE MC_Text ------------------------------
(* The parser on all texts built from an alphabet of lines or tokens.       *)
(*                                                                          *)
(* A text is pro, any sequence of at most Max items and epi. In line mode,  *)
(* texts are not continued behind a line that makes them malformed. Every   *)
(* text is emitted for replay on the implementation.                        *)
EXTENDS FParser, Json, IOUtils, SequencesExt

Thorough == IOEnv.TIER = "thorough"
Deeper == IOEnv.MORE = "1"
Depth(q, t) == IF Thorough THEN t ELSE IF Deeper THEN q + 1 ELSE q

Blank(n) == SubSeq("                ", 1, n)
Indented(inds, lines) ==
  [k \in 1 .. Len(inds) * Len(lines) |->
     LET i == (k - 1) \div Len(lines)  j == (k - 1) % Len(lines)
     IN Blank(inds[i + 1]) \o lines[j + 1] \o "\n"]

Head1 == "circuit m :\n module m :\n"
Lines(pro, inds, ls, q, t) == [pro |-> pro, epi |-> "", items |-> Indented(inds, ls), max |-> Depth(q, t), lines |-> TRUE]
Tokens(pro, items, epi, q, t) == [pro |-> pro, epi |-> epi, items |-> items, max |-> Depth(q, t), lines |-> FALSE]

Alphabet ==
  CASE IOEnv.ALPHA = "nest" ->
         Lines(Head1, <<1, 2, 3, 4>>, <<"skip", "when UInt(1) :", "else :", "else when UInt(0) :">>, 4, 6)
    [] IOEnv.ALPHA = "scope" ->
         Lines(Head1, <<2, 3>>, <<"wire a : UInt<1>", "wire a : Clock", "node b = a", "node a = b", "when a :", "else :",
               "b <= a", "cmem a : UInt<1>[2]", "read mport b = a[a], a">>, 3, 4)
    [] IOEnv.ALPHA = "mem" ->
         Lines(Head1, <<2, 3>>, <<"mem m :", "data-type => UInt<1>", "depth => 2", "reader => r", "writer => r", "readwriter => w",
               "read-latency => 1", "write-latency => 2", "read-under-write => old", "depth => 3", "skip", "m.r.en <= m.r.en", "depth = 2">>, 4, 5)
    [] IOEnv.ALPHA = "smems" ->          \* sequential memories in branches
         Lines(Head1 \o "  input c : UInt<1>\n", <<2, 3>>, <<"when c :", "else :", "cmem a : UInt<1>[2]", "smem a : Clock[3], old", "read mport x = a[c], c",
               "infer mport a = a[x], c">>, 4, 5)
    [] IOEnv.ALPHA = "mods" ->
         Lines("circuit m :\n", <<1, 2>>, <<"module a :", "module m :", "extmodule a :", "inst x of a", "inst m of m",
               "defname = k", "parameter p = 1", "input p : Clock", "skip">>, 4, 5)
    [] IOEnv.ALPHA = "when" ->           \* conditionals with declarations in branches
         Lines(Head1 \o "  input c : UInt<1>\n", <<2, 3, 4>>, <<"when c :", "else :", "else when d :", "wire d : UInt<1>", "d <= c", "when d :">>, 4, 5)
    [] IOEnv.ALPHA = "types" ->
         Tokens(Head1 \o "  wire w : ", <<"UInt", "SInt", "Fixed", "Clock", "<1>", "<65536>", "<<-1>>", "[2]", "{", "}", "a:", "flip ", ",", " ">>, "\n  skip\n", 3, 5)
    [] IOEnv.ALPHA = "exprs" ->
         Tokens(Head1 \o "  input a : UInt<4>\n  wire v : {f : UInt<2>[2]}\n  node n = ",
                <<"a", "v", "not(", "mux(", "bits(", ")", ",", "[", "]", ".f", "1", "UInt<3>(", " ", "-1">>, "\n  skip\n", 3, 5)
    [] IOEnv.ALPHA = "stmts" ->
         Tokens(Head1 \o "  input a : UInt<4>\n  output z : UInt<4>\n  ",
                <<"a", "z", " <= ", " <- ", " is ", "invalid", "skip", "wire ", " : ", "UInt<1>", "node ", " = ", "attach", "(", ")", ",", "@[i]", " ">>, "\n", 3, 4)
    [] IOEnv.ALPHA = "lits" ->
         Tokens(Head1 \o "  node n = ", <<"UInt", "SInt", "<4>", "<70000>", "(", ")", "-", "+", "\"", "h", "b", "1", "f", "0", "2">>, "\n", 3, 5)
    [] IOEnv.ALPHA = "heads" ->
         Tokens("", <<"circuit", " ", "m", ":", "@[", "]", "\n", ";x", "module", "\r">>, "", 4, 5)
    [] IOEnv.ALPHA = "info" ->
         Tokens(Head1 \o "  skip @[", <<"\\", "]", "a", "n", "t", "\n", "\t", " ", "@", "é", "%">>, "]\n", 3, 5)
    [] IOEnv.ALPHA = "fmt" ->
         Tokens(Head1 \o "  input a : UInt<4>\n  printf(a, a, \"", <<"%", "d", "b", "z", "\\", "\"", "n", "\n", "\t", ", a", "é">>, "\")\n", 3, 5)
    [] IOEnv.ALPHA = "params" ->
         Tokens("circuit m :\n extmodule m :\n  parameter p = ", <<"\"", "'", "\\", "a", "n", "1", "-", "+", ".", "E", "\t", "0">>, "\n", 3, 5)
    [] IOEnv.ALPHA = "ends" ->           \* line ends
         Tokens("circuit m :\n module m :\n  skip", <<" ", "\t", "\r", "\n", ";", "x", "@[a]", "  skip", "\r\n">>, "", 4, 6)

A == TLCEval(Alphabet)
Chars(s) == [i \in 1 .. Len(s) |-> Ch(s, i)]
TextOf(is) == A.pro \o FoldLeft(LAMBDA acc, i : acc \o A.items[i], "", is) \o A.epi
LexOf(s) == Lex(Chars(s))

(* Read on as long as there are lines left.                                 *)
RECURSIVE ReadAll(_, _)
ReadAll(p, t) == IF p.ph = "done" \/ p.p > t.n THEN p ELSE ReadAll(Step(p, t), t)

VARIABLES is, ps                         \* the items, the parser behind them
Text == TextOf(is)

(* Texts that keep the meaning: other line ends, comments, wider blocks.    *)
RECURSIVE Subst(_, _, _)
Subst(s, a, b) == FoldLeft(LAMBDA acc, c : acc \o (IF c = a THEN b ELSE c), "", Chars(s))
Wider(s) == FoldLeft(LAMBDA acc, c : IF c = LF THEN [o |-> acc.o \o c, b |-> TRUE]
                                     ELSE IF c = " " /\ acc.b THEN [acc EXCEPT !.o = @ \o "  "]
                                     ELSE [o |-> acc.o \o c, b |-> FALSE], [o |-> "", b |-> TRUE], Chars(s)).o
Variants(s) == << Subst(s, LF, "\r\n"), Subst(s, LF, " ;c\n\n"), Subst(s, LF, "\n  ; d\n"), Wider(s),
                  SubSeq(s, 1, Len(s) - 1), "\n" \o s >>

Init == is = <<>> /\ ps = ReadAll(InitCircuit, LexOf(TextOf(<<>>)))
Next == /\ Len(is) < A.max
        /\ A.lines => ps.ph # "done"
        /\ \E i \in 1 .. Len(A.items) :
             /\ is' = Append(is, i)
             /\ ps' = ReadAll(InitCircuit, LexOf(TextOf(is')))

Nesting == NestingOk(ps)
Scoping == ScopeOk(ps)

(* No line of an accepted text is left out.                                 *)
RECURSIVE StmtCount(_)
StmtCount(b) ==
  FoldLeft(LAMBDA acc, s : acc +
    (CASE s.s = "when" -> 1 + StmtCount(s.t) + StmtCount(s.f)
       [] s.s = "decl" -> IF s.ent.k = "mem" THEN 1 + Len(s.ent.ports) ELSE 1
       [] OTHER -> 1), 0, b)
ModCount(m) == 1 + Len(m.ports) + StmtCount(m.body) + Len(m.defname) + Len(m.params)
Elses == Cardinality({k \in 1 .. Len(is) : LET s == A.items[is[k]] IN
            \E j \in 1 .. Len(s) - 6 : SubSeq(s, j, j + 5) = "else :"})
NothingLost(f) ==
  A.lines /\ IOEnv.ALPHA \in {"nest", "scope", "when"} /\ Accepted(f) =>
    FoldLeft(LAMBDA acc, m : acc + ModCount(m), 0, f.own)
      = Len(is) + (IF IOEnv.ALPHA = "when" THEN 2 ELSE 1) - Elses

(* Line mode: layout does not matter.                                       *)
SameDoc(a, b) == /\ Accepted(a) = Accepted(b)
                 /\ Accepted(a) => a.own = b.own /\ a.info = b.info
Layout(f, text) ==
  A.lines /\ IOEnv.LAYOUT = "1" =>
    LET vs == Variants(text) IN
    \A v \in 1 .. Len(vs) : SameDoc(f, Parse(LexOf(vs[v])))

(* What is malformed is found where it stands, not behind it.               *)
ErrorsInside(f, text) == f.err => f.ep >= 1 /\ f.ep <= Len(text) + 1
                                  /\ \A e \in f.eps : e <= f.ep \/ e >= 1

Emit(f, text) == PrintT("EMIT " \o ToJson([t |-> text, a |-> Accepted(f)]))

(* Of the text as it stands, ended here.                                    *)
Ended ==
  LET text == Text  f == RunFrom(ps, LexOf(text)) IN
  /\ NothingLost(f) /\ Layout(f, text) /\ ErrorsInside(f, text)
  /\ Emit(f, text)
=============================================================================
