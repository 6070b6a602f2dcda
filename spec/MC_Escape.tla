----------------------------- MODULE MC_Escape -----------------------------
(* Every short string over the characters that matter is expressible in     *)
(* each context, in more than one way, and read back unchanged. What is     *)
(* written between delimiters is emitted for replay.                        *)
EXTENDS FGrammar, Json, IOUtils

Chars == << "a", "n", "t", "\\", "\"", "'", "]", "%", LF, TAB, " ", "é", "d", "@", ";", CR >>
Longest == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3

VARIABLE s                               \* a string, as a sequence of characters
Init == s = <<>>
Next == Len(s) < Longest /\ \E i \in 1 .. Len(Chars) : s' = Append(s, Chars[i])

Str(cs) == Join(cs, 1, Len(cs))
Map(f(_), cs) == Str([i \in 1 .. Len(cs) |-> f(cs[i])])
Chs(str) == [i \in 1 .. Len(str) |-> Ch(str, i)]

(* Writing: least escapes, and escaping whatever may be escaped.            *)
Min1(c, delim) == IF c = LF THEN "\\n" ELSE IF c = TAB THEN "\\t" ELSE IF c \in {delim, BS} THEN BS \o c ELSE c
All1(c, delim) == IF c \in {"n", "t"} THEN c ELSE BS \o c
FmtMin(c, delim) == IF c = "%" THEN "%%" ELSE Min1(c, delim)
FmtAll(c, delim) == IF c = "%" THEN "\\%" ELSE All1(c, delim)

Between(w, open, close, p) == LET t == Lex(Chs(open \o w \o close \o "x")) IN Closed(t, 1 + Len(open), close)
ReadsAs(w, open, close) == LET r == Between(w, open, close, 1) IN
  r.ok /\ r.v = Str(s) /\ r.p = 1 + Len(open) + Len(w) + Len(close)
Write(f(_, _), delim) == LET g(c) == f(c, delim) IN Map(g, s)

InfoSafe == /\ ReadsAs(Write(Min1, "]"), "@[", "]") /\ ReadsAs(Write(All1, "]"), "@[", "]")
QuoteSafe == \A q \in {DQ, "'"} : ReadsAs(Write(Min1, q), q, q) /\ ReadsAs(Write(All1, q), q, q)
FmtReads(w) == LET t == Lex(Chs(w \o DQ))  r == FmtParts(t, 1) IN
  r.p = Len(w) + 1 /\ r.v = (IF s = <<>> THEN <<>> ELSE << [lit |-> Str(s)] >>)
FmtSafe == FmtReads(Write(FmtMin, DQ)) /\ FmtReads(Write(FmtAll, DQ))

(* An info, read as it stands: ends at the first bare bracket.              *)
RawStops == LET t == Lex(Chs(Str(s) \o "]"))  r == Escaped(t, 1, "]", "") IN
  /\ At(t, r.p) \in {"]", LF, TAB, BS, ""}
  /\ \A i \in 1 .. r.p - 1 : At(t, i) \notin {LF, TAB, "]"} \/ (i > 1 /\ At(t, i - 1) = BS)
Emit == PrintT("EMIT " \o ToJson(Str(s)))
=============================================================================
