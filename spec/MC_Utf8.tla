------------------------------ MODULE MC_Utf8 -------------------------------
(* Byte sequences of the boundary bytes are UTF-8 exactly if they are       *)
(* encodings of scalar values, one behind the other.                        *)
EXTENDS FUtf8, TLC, Json, IOUtils

Bytes == << 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 239, 240, 241, 244, 245, 255 >>
Longest == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3

VARIABLE b
Init == b = <<>>
Next == Len(b) < Longest /\ \E i \in 1 .. Len(Bytes) : b' = Append(b, Bytes[i])

Enc(c) == IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Scalar(c) == (c >= 0 /\ c < 55296) \/ (c >= 57344 /\ c < 1114112)
Value(s) == CASE Len(s) = 1 -> s[1]
              [] Len(s) = 2 -> (s[1] - 192) * 64 + s[2] - 128
              [] Len(s) = 3 -> (s[1] - 224) * 4096 + (s[2] - 128) * 64 + s[3] - 128
              [] Len(s) = 4 -> (s[1] - 240) * 262144 + (s[2] - 128) * 4096 + (s[3] - 128) * 64 + s[4] - 128
IsEnc(s) == Scalar(Value(s)) /\ Enc(Value(s)) = s
RECURSIVE Valid(_)
Valid(s) == s = <<>> \/ \E n \in 1 .. (IF Len(s) < 4 THEN Len(s) ELSE 4) :
              IsEnc(SubSeq(s, 1, n)) /\ Valid(SubSeq(s, n + 1, Len(s)))
Agree == IsUtf8(b) = Valid(b)
Emit == PrintT("EMIT " \o ToJson(b))
=============================================================================
