------------------------------ MODULE MC_Sink ------------------------------
(* A printer writing parts of parts, piece by piece, into targets of every  *)
(* capacity. Each part hands on the refusal of what it consists of.         *)
EXTENDS FSink, Json, IOUtils, TLC

Wide == IF IOEnv.TIER = "thorough" THEN 3 ELSE 2
Sizes == 0 .. 2                          \* of a piece
Tree1 == UNION {[1 .. n -> Sizes] : n \in 0 .. 3}
Trees == UNION {[1 .. n -> Tree1] : n \in 0 .. Wide}
Piece(n) == SubSeq("ab", 1, n)
RECURSIVE Flat(_, _)
Flat(f, i) == IF i > Len(f) THEN "" ELSE Piece(f[i]) \o Flat(f, i + 1)
RECURSIVE All(_, _)
All(f, i) == IF i > Len(f) THEN "" ELSE Flat(f[i], 1) \o All(f, i + 1)
Full(f) == All(f, 1)

(* room, of: the share of the text which is taken. at: position of the next *)
(* piece; ans: "going", "ok" or "err".                                      *)
Of == 6
VARIABLES tree, room, forever, left, at, sink, ans
vars == <<tree, room, forever, left, at, sink, ans>>
Init == /\ tree \in Trees /\ room \in 0 .. Of /\ forever \in BOOLEAN
        /\ left = (Len(Full(tree)) * room) \div Of
        /\ at = <<1, 1>> /\ sink = NewSink /\ ans = "going"

Write == /\ ans = "going" /\ at[1] <= Len(tree)
         /\ IF at[2] > Len(tree[at[1]]) THEN at' = <<at[1] + 1, 1>> /\ UNCHANGED <<left, sink, ans>>
            ELSE LET t == Piece(tree[at[1]][at[2]]) IN
                 IF Len(t) > left THEN sink' = Refused(sink) /\ ans' = "err" /\ UNCHANGED <<left, at>>
                 ELSE sink' = Taken(sink, t) /\ left' = left - Len(t) /\ at' = <<at[1], at[2] + 1>> /\ UNCHANGED ans
         /\ UNCHANGED <<tree, room, forever>>
End == ans = "going" /\ at[1] > Len(tree) /\ ans' = "ok" /\ UNCHANGED <<tree, room, forever, left, at, sink>>
Next == Write \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Prefix == PrefixOk(sink, Full(tree))
Answer == ans # "going" => AnswerOk(sink, ans = "ok") /\ WholeOk(sink, Full(tree))
Quiet == QuietOk(sink)
Full6 == ans # "going" /\ room = Of => ans = "ok"      \* enough room is enough
Grows == [][Starts(sink'.got, sink.got)]_vars
Answers == <>(ans # "going")
Cuts == {[room |-> r, of |-> 24, forever |-> f] : r \in 0 .. 24, f \in BOOLEAN}
ASSUME PrintT("EMIT " \o ToJson(Cuts))
=============================================================================
