------------------------------- MODULE FUtf8 -------------------------------
(* Which byte sequences are UTF-8.                                          *)
EXTENDS Integers, Sequences
RECURSIVE Utf8(_, _)
Utf8(b, i) ==
  LET cont(j, lo, hi) == j <= Len(b) /\ b[j] >= lo /\ b[j] <= hi
      c(j) == cont(j, 128, 191)
  IN IF i > Len(b) THEN TRUE
     ELSE IF b[i] < 128 THEN Utf8(b, i + 1)
     ELSE IF b[i] >= 194 /\ b[i] <= 223 THEN c(i + 1) /\ Utf8(b, i + 2)
     ELSE IF b[i] >= 224 /\ b[i] <= 239 THEN
       /\ cont(i + 1, IF b[i] = 224 THEN 160 ELSE 128, IF b[i] = 237 THEN 159 ELSE 191)
       /\ c(i + 2) /\ Utf8(b, i + 3)
     ELSE IF b[i] >= 240 /\ b[i] <= 244 THEN
       /\ cont(i + 1, IF b[i] = 240 THEN 144 ELSE 128, IF b[i] = 244 THEN 143 ELSE 191)
       /\ c(i + 2) /\ c(i + 3) /\ Utf8(b, i + 4)
     ELSE FALSE
IsUtf8(b) == Utf8(b, 1)
=============================================================================
