------------------------------- MODULE MC_Num -------------------------------
(* Numerals denote what they say: the digit-string arithmetic used by the   *)
(* specification agrees with integer arithmetic wherever that is defined.   *)
EXTENDS FGrammar, Json, IOUtils

Top0 == IF IOEnv.TIER = "thorough" THEN 70000 ELSE 3000
Values == (0 .. Top0) \cup (65530 .. 65540) \cup {2^k - 1 : k \in 0 .. 30} \cup {2^k : k \in 0 .. 30} \cup (32766 .. 32769)

RECURSIVE Digits(_, _)
Digits(v, radix) == IF v < radix THEN HexDigit(v) ELSE Digits(v \div radix, radix) \o HexDigit(v % radix)
Chs(str) == [i \in 1 .. Len(str) |-> Ch(str, i)]
L(str) == Lex(Chs(str))

VARIABLES v, neg
Init == v \in Values /\ neg \in BOOLEAN
Next == UNCHANGED <<v, neg>>

Sign == IF neg THEN "-" ELSE ""
Dec == Sign \o Digits(v, 10)
Hex == Digits(v, 16)
Same(str) == LET r == NumLit(L(str), 1) IN r.ok /\ r.p = Len(str) + 1 /\ r.v.neg = neg /\ r.v.hex = Hex
Radixes == /\ Same(Dec) /\ Same(DQ \o "h" \o Sign \o Hex \o DQ) /\ Same(DQ \o "b" \o Sign \o "00" \o Digits(v, 2) \o DQ)
           /\ Same(DQ \o "o" \o Sign \o Digits(v, 8) \o DQ)
Ranges == /\ U16(L(Dec), 1).ok = (~neg /\ v <= 65535)
          /\ (U16(L(Dec), 1).ok => U16(L(Dec), 1).v = v)
          /\ I16(L(Dec), 1).ok = (IF neg THEN v <= 32768 ELSE v <= 32767)
          /\ (I16(L(Dec), 1).ok => I16(L(Dec), 1).v = (IF neg THEN -v ELSE v))
          /\ I64(L(Dec), 1).ok /\ (U64(L(Dec), 1).ok = ~neg)
          /\ (v > 0 => I64(L(Dec), 1).v = Dec)
Small == v < 2^30
Widths == Small =>
  LET u == MinWidthU(Hex)  s == MinWidthS(neg, Hex) IN
  /\ v < 2^u /\ (u > 0 => v >= 2^(u - 1))
  /\ IF neg THEN v <= 2^(s - 1) /\ (s > 1 => v > 2^(s - 2) \/ v = 0) ELSE v < 2^(s - 1) /\ (s > 1 => v >= 2^(s - 2))
Address == Small /\ ~neg => LET w == AddrWidth(Digits(v, 10)) IN 2^w >= v /\ (w > 0 => 2^(w - 1) < v)

(* Where numbers are written, and what is written there.                    *)
Body(s) == <<"circuit m :\n module m :\n  input a : UInt<8>\n  wire v : UInt<8>[4]\n  " \o s[1], s[2] \o "\n  skip\n">>
Places == << Body(<<"wire w : UInt<", ">">>), Body(<<"wire w : SInt<", ">">>), Body(<<"wire w : Analog<", ">">>), Body(<<"wire w : Fixed<", ">">>),
             Body(<<"wire w : Fixed<3><<", ">>">>), Body(<<"wire w : UInt[", "]">>), Body(<<"node n = v[", "]">>), Body(<<"node n = UInt(", ")">>),
             Body(<<"node n = SInt(", ")">>), Body(<<"node n = UInt<", ">(1)">>), Body(<<"node n = SInt<", ">(-1)">>), Body(<<"node n = SInt<9>(", ")">>),
             Body(<<"node n = pad(a, ", ")">>), Body(<<"node n = shl(a, ", ")">>), Body(<<"node n = shr(a, ", ")">>), Body(<<"node n = head(a, ", ")">>),
             Body(<<"node n = tail(a, ", ")">>), Body(<<"node n = incp(a, ", ")">>), Body(<<"node n = decp(a, ", ")">>), Body(<<"node n = asFixed(a, ", ")">>),
             Body(<<"node n = setp(a, ", ")">>), Body(<<"node n = bits(a, ", ", 0)">>), Body(<<"node n = bits(a, 9, ", ")">>), Body(<<"stop(a, a, ", ")">>),
             Body(<<"mem x :\n   data-type => UInt\n   depth => ", "">>), Body(<<"mem x :\n   data-type => UInt\n   depth => 1\n   read-latency => ", "">>),
             Body(<<"mem x :\n   data-type => UInt\n   depth => 1\n   write-latency => ", "">>), Body(<<"read mport p = q[", "], a">>),
             <<"circuit m :\n extmodule m :\n  parameter p = ", "\n">> >>
Numerals == << "0", "1", "00", "007", "9", "10", "255", "256", "32767", "32768", "65535", "65536", "065535", "70000", "131071", "-0", "-1", "-5", "-32768", "-32769",
               "+1", "+0", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
               "-9223372036854775809", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456",
               "170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "99999999999999999999999999999999999999999999",
               "1_0", "0x1", "1e3", "", "-", "+", "--1", "+-1", "- 1", "1 ", " 1", "1 1", "²", "1²", "٣", "1.5", "1.0", ".5", "5.", "1.5E3", "-2.5E-3", "1.5e3", "0.1", "1.5E", "E5", "1.5E99", "1.5E999", "1.0E-999", "1.0E99999999999", "0.1E-99999999999", "0.0E99999999999", "1.7976931348623157E308", "123456789012345678901234567890.5",
               "0.30000000000000004", "0.1000000000000000055511151231257827", "9007199254740993.0", "1.5E²", "1.5E007", "0.0", "-0.0", "00.50",
               "\"h1F\"", "\"hff\"", "\"hFF\"", "\"b101\"", "\"o17\"", "\"b102\"", "\"o18\"", "\"hfg\"", "\"h-1\"", "\"h+1\"", "\"-h1\"", "\"\"", "\"h\"", "\"x1\"", "\"H1\"",
               "\"d5\"", "\"h00\"", "\"b-1000\"", "\"o-7\"", "\"h-80\"", "\"h80\"", "\"b10000000\"", "\"hffffffffffffffffffffffffffffffff\"", "\"h100000000000000000000000000000000\"",
               "\"h1", "h1", "\"h 1\"", "\"h1 \"", "'h1'", "-128", "-129", "127", "128", "a", "true" >>
(* Every way to write some numbers: notation, sign, leading zeros, case.     *)
Notations == << [pre |-> "", post |-> "", radix |-> 10], [pre |-> DQ \o "h", post |-> DQ, radix |-> 16],
                [pre |-> DQ \o "o", post |-> DQ, radix |-> 8], [pre |-> DQ \o "b", post |-> DQ, radix |-> 2] >>
UpHex(d) == IF d = "a" THEN "A" ELSE IF d = "f" THEN "F" ELSE d
RECURSIVE UpperAll(_, _)
UpperAll(d, i) == IF i > Len(d) THEN "" ELSE UpHex(Ch(d, i)) \o UpperAll(d, i + 1)
Some == {0, 1, 2, 5, 10, 127, 128, 255, 32768, 65535, 65536, 2^20 + 10}
Written(nt, sg, z, x) == {nt.pre \o sg \o z \o Digits(x, nt.radix) \o nt.post} \cup
                         (IF nt.radix = 16 THEN {nt.pre \o sg \o z \o UpperAll(Digits(x, 16), 1) \o nt.post} ELSE {})
Systematic == UNION {Written(Notations[i], sg, z, x) : i \in 1 .. 4, sg \in {"", "-", "+"}, z \in {"", "0", "000"}, x \in Some}
Literals == << Body(<<"node n = UInt(", ")">>), Body(<<"node n = SInt(", ")">>), Body(<<"node n = UInt<40>(", ")">>), Body(<<"node n = SInt<40>(", ")">>) >>
ASSUME PrintT("EMIT " \o ToJson([places |-> Places, nums |-> Numerals, lits |-> Literals, syst |-> Systematic]))
=============================================================================
