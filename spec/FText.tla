------------------------------- MODULE FText -------------------------------
(* Characters, tokens, numerals, escaped text.                              *)
(*                                                                          *)
(* A text is a record [c, r, n]: its characters (strings of length one), for*)
(* each position the longest run of identifier characters starting there,   *)
(* and its length. A position is a 1-based index of the next character, and *)
(* a recogniser R(t, p) yields [ok, p, v]: whether it matched at p, the     *)
(* position behind the match and the value it denotes.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

At(t, p) == IF p >= 1 /\ p <= t.n THEN t.c[p] ELSE ""
EndOf(t) == t.n + 1

Fail      == [ok |-> FALSE, p |-> 0, v |-> ""]
Yes(p, v) == [ok |-> TRUE, p |-> p, v |-> v]

LF == "\n"
CR == "\r"
TAB == "\t"
BS == "\\"
DQ == "\""

---------------------------------------------------------------------------
(* Character classes. Non-ASCII characters used by the generators are       *)
(* classified here; letters may occur in identifiers, No/Nd characters are  *)
(* numeric (allowed in identifiers, but not as their first character).      *)
DecChars == {"0","1","2","3","4","5","6","7","8","9"}
NumOther == {"²","½","٣","Ⅷ"}
NumChars == DecChars \cup NumOther
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q",
          "r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q",
          "R","S","T","U","V","W","X","Y","Z"}
OtherLetters == {"é","ß","λ","日","Ж","ª","ⓐ","ͅ","É","Λ","ж"}
IdChars == NumChars \cup Lower \cup Upper \cup OtherLetters \cup {"_", "$"}
AlnumAscii == DecChars \cup Lower \cup Upper

RECURSIVE Join(_, _, _)                    \* characters a .. b as a string
Join(c, a, b) == IF b < a THEN "" ELSE IF a = b THEN c[a]
  ELSE LET m == (a + b) \div 2 IN Join(c, a, m) \o Join(c, m + 1, b)
Cut(t, a, b) == Join(t.c, a, b)

RECURSIVE RunEnd(_, _, _)
RunEnd(c, p, n) == IF p > n THEN p ELSE IF c[p] \in IdChars THEN RunEnd(c, p + 1, n) ELSE p

(* A text with the longest words in it at their first character.            *)
Lex(cs) == LET n == Len(cs) IN
  [c |-> cs, n |-> n,
   r |-> [p \in 1 .. n |-> IF p > 1 /\ cs[p - 1] \in IdChars THEN "" ELSE Join(cs, p, RunEnd(cs, p, n) - 1)]]

RECURSIVE Span(_, _, _)
Span(t, p, cs) == IF At(t, p) \in cs THEN Span(t, p + 1, cs) ELSE p

Sp(t, p) == Span(t, p, {" ", TAB})                        \* skip blanks

Run(t, p) == IF p < 1 \/ p > t.n THEN "" ELSE IF t.r[p] # "" THEN t.r[p]
             ELSE IF t.c[p] \in IdChars THEN Join(t.c, p, RunEnd(t.c, p, t.n) - 1) ELSE ""

Op1(t, p, a) == IF At(t, p) = a THEN Yes(p + 1, a) ELSE Fail
Op2(t, p, a, b) == IF At(t, p) = a /\ At(t, p + 1) = b THEN Yes(p + 2, a) ELSE Fail
SOp1(t, p, a) == Op1(t, Sp(t, p), a)                      \* blanks, then token
SOp2(t, p, a, b) == Op2(t, Sp(t, p), a, b)

(* A keyword is never the mere beginning of a longer word. *)
Kw(t, p, s) == IF Run(t, p) = s THEN Yes(p + Len(s), s) ELSE Fail
SKw(t, p, s) == Kw(t, Sp(t, p), s)

RECURSIVE KwDash(_, _, _)                  \* words connected by dashes
KwDash(t, p, ws) ==
  LET r == Kw(t, p, Head(ws)) IN
  IF ~r.ok \/ Len(ws) = 1 THEN r
  ELSE LET d == Op1(t, r.p, "-") IN IF d.ok THEN KwDash(t, d.p, Tail(ws)) ELSE d

Ident(t, p) ==
  LET r == Run(t, p)
  IN IF r # "" /\ At(t, p) \notin NumChars THEN Yes(p + Len(r), r) ELSE Fail
SIdent(t, p) == Ident(t, Sp(t, p))

FieldName(t, p) == LET r == Run(t, p) IN IF r # "" THEN Yes(p + Len(r), r) ELSE Fail

---------------------------------------------------------------------------
(* Line ends: blanks, an optional comment and LF, CRLF or the end of the    *)
(* text, followed by any number of blank or comment-only lines.             *)
RECURSIVE CommentEnd(_, _)
CommentEnd(t, p) ==              \* position of the LF, CR LF or end; 0 if a
  LET c == At(t, p) IN           \* carriage return stands alone
  IF c = "" \/ c = LF THEN p
  ELSE IF c = CR THEN (IF At(t, p + 1) = LF THEN p ELSE 0)
  ELSE CommentEnd(t, p + 1)

OneLineEnd(t, p) ==
  LET b == Sp(t, p)
      q == IF At(t, b) = ";" THEN CommentEnd(t, b + 1) ELSE b
  IN IF q = 0 THEN Fail
     ELSE IF At(t, q) = LF THEN Yes(q + 1, "nl")
     ELSE IF At(t, q) = CR /\ At(t, q + 1) = LF THEN Yes(q + 2, "nl")
     ELSE IF At(t, q) = "" THEN Yes(EndOf(t), "eof")
     ELSE Fail

RECURSIVE MoreLineEnds(_, _)
MoreLineEnds(t, p) ==
  IF p > t.n THEN p
  ELSE LET r == OneLineEnd(t, p) IN IF r.ok THEN MoreLineEnds(t, r.p) ELSE p

LineEnd(t, p) ==
  LET r == OneLineEnd(t, p)
  IN IF r.ok THEN Yes(MoreLineEnds(t, r.p), "") ELSE Fail

Spaces(t, p) == Span(t, p, {" "}) - p                      \* indentation

---------------------------------------------------------------------------
(* Escaped text up to a delimiter. Control: unescaped newline and tab are   *)
(* not allowed.                                                             *)
RECURSIVE Escaped(_, _, _, _)
Escaped(t, p, delim, acc) ==
  LET c == At(t, p) IN
  IF c = "" \/ c = delim \/ c = LF \/ c = TAB THEN Yes(p, acc)
  ELSE IF c = BS THEN
    LET d == At(t, p + 1) IN
    IF d = "" THEN Yes(p, acc)
    ELSE Escaped(t, p + 2, delim,
                 acc \o (IF d = "n" THEN LF ELSE IF d = "t" THEN TAB ELSE d))
  ELSE Escaped(t, p + 1, delim, acc \o c)

(* v: the text between an opening delimiter ending in front of p and the    *)
(* closing one.                                                             *)
Closed(t, p, close) ==
  LET b == Escaped(t, p, close, "")
      c == Op1(t, b.p, close)
  IN IF c.ok THEN Yes(c.p, b.v) ELSE Fail

(* Optional info attribute; always consumes the blanks in front of it.      *)
Info(t, p) ==
  LET q == Sp(t, p)
      o == Op2(t, q, "@", "[")
      r == IF o.ok THEN Closed(t, o.p, "]") ELSE Fail
  IN IF r.ok THEN Yes(r.p, <<r.v>>) ELSE Yes(q, <<>>)

---------------------------------------------------------------------------
(* Numerals are handled as digit strings: TLC's integers have 32 bits.      *)
Ch(s, i) == SubSeq(s, i, i)
Sub1(s, a, b) == IF b < a THEN "" ELSE SubSeq(s, a, b)

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(Sub1(s, 2, Len(s))) ELSE s

RECURSIVE IntOfStr(_)
DigitVal(c) == CASE c="0"->0 [] c="1"->1 [] c="2"->2 [] c="3"->3 [] c="4"->4
                 [] c="5"->5 [] c="6"->6 [] c="7"->7 [] c="8"->8 [] c="9"->9
                 [] c \in {"a","A"}->10 [] c \in {"b","B"}->11
                 [] c \in {"c","C"}->12 [] c \in {"d","D"}->13
                 [] c \in {"e","E"}->14 [] c \in {"f","F"}->15
                 [] OTHER -> 99
IntOfStr(s) == IF Len(s) = 0 THEN 0
               ELSE IntOfStr(Sub1(s, 1, Len(s) - 1)) * 10 + DigitVal(Ch(s, Len(s)))
HexDigit(d) == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>[d + 1]

(* Compare normalised digit strings by value. *)
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF Len(a) = 0 THEN TRUE
  ELSE LET x == DigitVal(Ch(a, 1))  y == DigitVal(Ch(b, 1)) IN
       IF x # y THEN x < y ELSE LexLeq(Sub1(a, 2, Len(a)), Sub1(b, 2, Len(b)))
NumLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))

(* A signed decimal numeral as written: sign, digits (maybe none or not all *)
(* ASCII, in which case it denotes nothing).                                *)
Numeral(t, p) ==
  LET s == IF At(t, p) \in {"+", "-"} THEN At(t, p) ELSE ""
      b == p + Len(s)
      e == Span(t, b, NumChars)
      d == Cut(t, b, e - 1)
  IN IF e = b \/ Span(t, b, DecChars) # e THEN Fail
     ELSE Yes(e, [neg |-> s = "-", sign |-> s, dig |-> StripZeros(d)])

(* Unsigned numbers accept no minus sign, not even in front of a zero.      *)
NumUpTo(t, p, max) ==            \* v: decimal digit string
  LET r == Numeral(t, p) IN
  IF r.ok /\ ~r.v.neg /\ NumLeq(r.v.dig, max) THEN Yes(r.p, r.v.dig) ELSE Fail
NumSigned(t, p, maxpos, maxneg) ==   \* v: canonical decimal string
  LET r == Numeral(t, p) IN
  IF r.ok /\ NumLeq(r.v.dig, IF r.v.neg THEN maxneg ELSE maxpos)
  THEN Yes(r.p, (IF r.v.neg /\ r.v.dig # "0" THEN "-" ELSE "") \o r.v.dig) ELSE Fail

U16(t, p) == LET r == NumUpTo(t, p, "65535") IN
             IF r.ok THEN Yes(r.p, IntOfStr(r.v)) ELSE Fail
U64(t, p) == NumUpTo(t, p, "18446744073709551615")
I64(t, p) == NumSigned(t, p, "9223372036854775807", "9223372036854775808")
I16(t, p) == LET r == Numeral(t, p) IN
             IF r.ok /\ NumLeq(r.v.dig, IF r.v.neg THEN "32768" ELSE "32767")
             THEN Yes(r.p, IF r.v.neg THEN 0 - IntOfStr(r.v.dig) ELSE IntOfStr(r.v.dig))
             ELSE Fail

---------------------------------------------------------------------------
(* Big numbers: sequences of limbs in base 65536, least significant first,  *)
(* built from digits in chunks small enough for 32-bit arithmetic.          *)
Limb == 65536
RECURSIVE MulAdd(_, _, _, _, _)
MulAdd(l, i, m, c, acc) ==       \* l * m + c, from limb i on
  IF i > Len(l) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET x == l[i] * m + c IN MulAdd(l, i + 1, m, x \div Limb, Append(acc, x % Limb))

RECURSIVE ValueIn(_, _)          \* of a short digit string
ValueIn(s, radix) == IF Len(s) = 0 THEN 0
  ELSE ValueIn(Sub1(s, 1, Len(s) - 1), radix) * radix + DigitVal(Ch(s, Len(s)))

RECURSIVE Limbs(_, _)            \* of decimals
Limbs(s, acc) ==
  IF Len(s) = 0 THEN acc
  ELSE LET n == IF Len(s) < 4 THEN Len(s) ELSE 4
       IN Limbs(Sub1(s, n + 1, Len(s)), TLCEval(MulAdd(acc, 1, 10^n, ValueIn(Sub1(s, 1, n), 10), <<>>)))

Hex4(x) == HexDigit(x \div 4096) \o HexDigit((x \div 256) % 16) \o HexDigit((x \div 16) % 16) \o HexDigit(x % 16)
RECURSIVE LimbsHex(_)
LimbsHex(l) == IF Len(l) = 0 THEN "" ELSE LimbsHex(Tail(l)) \o Hex4(Head(l))
DecToHex(s) == LimbsHex(Limbs(s, <<>>))

(* Binary and octal digits: four of them at a time, aligned to the right.   *)
RECURSIVE BinToHex(_), OctToHex(_)
BinToHex(s) == IF Len(s) = 0 THEN ""
  ELSE LET n == IF Len(s) % 4 = 0 THEN 4 ELSE Len(s) % 4 IN
       HexDigit(ValueIn(Sub1(s, 1, n), 2)) \o BinToHex(Sub1(s, n + 1, Len(s)))
OctToHex(s) == IF Len(s) = 0 THEN ""
  ELSE LET n == IF Len(s) % 4 = 0 THEN 4 ELSE Len(s) % 4
           x == ValueIn(Sub1(s, 1, n), 8) IN
       HexDigit(x \div 256) \o HexDigit((x \div 16) % 16) \o HexDigit(x % 16) \o OctToHex(Sub1(s, n + 1, Len(s)))

HexNorm(h) == IF Len(h) = 0 THEN "0" ELSE StripZeros(h)
RECURSIVE HexLower(_, _)
HexLower(s, i) == IF i > Len(s) THEN "" ELSE HexDigit(DigitVal(Ch(s, i))) \o HexLower(s, i + 1)
ToHex(s, radix) ==
  HexNorm(CASE radix = 16 -> HexLower(s, 1) [] radix = 10 -> DecToHex(s) [] radix = 8 -> OctToHex(s) [] OTHER -> BinToHex(s))

BitsOfDigit(d) == IF d = 0 THEN 0 ELSE IF d = 1 THEN 1 ELSE IF d < 4 THEN 2
                  ELSE IF d < 8 THEN 3 ELSE 4
BitLen(h) == IF h = "0" THEN 0 ELSE (Len(h) - 1) * 4 + BitsOfDigit(DigitVal(Ch(h, 1)))

IsPow2Hex(h) ==                  \* h a normalised hex magnitude
  /\ Ch(h, 1) \in {"1", "2", "4", "8"}
  /\ \A i \in 2 .. Len(h) : Ch(h, i) = "0"

MinWidthU(h) == BitLen(h)                                   \* unsigned
MinWidthS(neg, h) ==                                        \* two's complement
  IF neg /\ h # "0" /\ IsPow2Hex(h) THEN BitLen(h) ELSE BitLen(h) + 1

AllDigits(s, radix) == Len(s) > 0 /\ \A i \in 1 .. Len(s) : DigitVal(Ch(s, i)) < radix

(* A number literal: decimal, or "b..", "o..", "h.." in quotes.             *)
(* v = [neg, sign, hex]                                                     *)
NumLit(t, p) ==
  LET d == Numeral(t, p) IN
  IF d.ok THEN Yes(d.p, [neg |-> d.v.neg, sign |-> d.v.sign, hex |-> ToHex(d.v.dig, 10)])
  ELSE
  LET r  == At(t, p + 1)
      s  == IF At(t, p + 2) \in {"+", "-"} THEN At(t, p + 2) ELSE ""
      b  == p + 2 + Len(s)
      e  == Span(t, b, AlnumAscii)
      dg == Cut(t, b, e - 1)
      rx == CASE r = "b" -> 2 [] r = "o" -> 8 [] r = "h" -> 16 [] OTHER -> 0
  IN IF At(t, p) = DQ /\ rx # 0 /\ e > b /\ At(t, e) = DQ /\ AllDigits(dg, rx)
     THEN Yes(e + 1, [neg |-> s = "-", sign |-> s, hex |-> ToHex(dg, rx)])
     ELSE Fail

(* Floating point numerals: sign digits "." digits ["E" sign digits]. The   *)
(* value is kept as decimal digits times a power of ten, normalised.        *)
RECURSIVE TrailZeros(_)
TrailZeros(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = "0" THEN 1 + TrailZeros(Sub1(s, 1, Len(s) - 1)) ELSE 0
Dbl(neg, digits, exp) ==
  LET s == StripZeros(digits)
      z == IF s = "0" \/ s = "" THEN 0 ELSE TrailZeros(s)
  IN IF s = "0" \/ s = "" THEN [neg |-> FALSE, d |-> "0", x |-> 0]
     ELSE [neg |-> neg, d |-> Sub1(s, 1, Len(s) - z), x |-> exp + z]

Float(t, p) ==
  LET s  == IF At(t, p) \in {"+", "-"} THEN At(t, p) ELSE ""
      b  == p + Len(s)
      e  == Span(t, b, NumChars)
      f  == Span(t, e + 1, NumChars)
      ex == At(t, f) = "E"
      xs == IF ex /\ At(t, f + 1) \in {"+", "-"} THEN At(t, f + 1) ELSE ""
      xb == f + 1 + Len(xs)
      xe == Span(t, xb, NumChars)
      ip == Cut(t, b, e - 1)
      fp == Cut(t, e + 1, f - 1)
      eg == StripZeros(Cut(t, xb, xe - 1))
      em == IF Len(eg) > 6 THEN 1000000 ELSE IntOfStr(eg)
      en == IF xs = "-" THEN 0 - em ELSE em
      plain(a, z) == Span(t, a, DecChars) >= z
  IN IF At(t, e) # "." \/ (e = b /\ f = e + 1) \/ ~plain(b, e) \/ ~plain(e + 1, f) THEN Fail
     ELSE IF ~ex THEN Yes(f, Dbl(s = "-", ip \o fp, 0 - Len(fp)))
     ELSE IF xe = xb \/ ~plain(xb, xe) THEN Fail
     ELSE Yes(xe, Dbl(s = "-", ip \o fp, en - Len(fp)))

(* Two decimals for one double: an implementation shows the shortest or the *)
(* exact one. Up to 15 digits, decimals denote different doubles if they    *)
(* differ; otherwise they may differ by half a unit in the last place.      *)
(* Nothing is said of those too small or too large for full precision.      *)
Magnitude(v) == v.x + Len(v.d)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Chunk(v, mag, a) ==                      \* 9 digits behind the a-th, as a number
  LET s == Zeros(mag - Magnitude(v)) \o v.d \o Zeros(18)
  IN IntOfStr(StripZeros(Sub1(s, a + 1, a + 9)))
Nearby(a, b) ==
  LET m == IF Magnitude(a) > Magnitude(b) THEN Magnitude(a) ELSE Magnitude(b)
      hi == Chunk(a, m, 0) - Chunk(b, m, 0)
      lo == Chunk(a, m, 9) - Chunk(b, m, 9)
      d == hi * 1000000000 + lo
  IN hi \in -1 .. 1 /\ d \in -150 .. 150
Extreme(v) == v.d # "0" /\ (Magnitude(v) > 308 \/ Magnitude(v) < -290)
SameDbl(a, b) ==
  \/ a = b
  \/ Extreme(a) /\ (Extreme(b) \/ b.d = "0")
  \/ Extreme(b) /\ (Extreme(a) \/ a.d = "0")
  \/ /\ a.neg = b.neg /\ (Len(a.d) > 15 \/ Len(b.d) > 15)
     /\ Magnitude(a) - Magnitude(b) \in -1 .. 1 /\ Nearby(a, b)
=============================================================================
