----------------------------- MODULE MC_Printer -----------------------------
(* All small instantiation graphs. Whatever path the printer takes, it      *)
(* terminates, having put every needed module in front of its users.        *)
EXTENDS FPrinter, Json, IOUtils, TLC

N == IF IOEnv.TIER = "thorough" THEN 5 ELSE 4
Deps(n) == UNION {{s \in [1 .. l -> 1 .. n - 1] : TRUE} : l \in 0 .. (IF n > 3 THEN 3 ELSE n)}  \* with repetitions
Graphs == IF N = 4 THEN {<<a, b, c, d>> : a \in Deps(1) \cap {<<>>}, b \in Deps(2), c \in Deps(3), d \in Deps(4)}
          ELSE {<<a, b, c, d, e>> : a \in {<<>>}, b \in {<<>>, <<1>>}, c \in Deps(3), d \in {x \in Deps(4) : Len(x) < 3}, e \in Deps(5)}

VARIABLES deps, s
Init == deps \in Graphs /\ s = PInit(Len(deps))
Next == ~PDone(s) /\ s' = PStep(deps, s) /\ UNCHANGED deps
Spec == Init /\ [][Next]_<<deps, s>> /\ WF_<<deps, s>>(Next)

RightOrder == PDone(s) => OrderOk(deps, Len(deps), s.out)
Prefixes ==                              \* already in the midst of it
  \A i \in 1 .. Len(s.out) : \A k \in 1 .. Len(deps[s.out[i]]) :
    \E j \in 1 .. i - 1 : s.out[j] = deps[s.out[i]][k]
Once == \A i, j \in 1 .. Len(s.out) : s.out[i] = s.out[j] => i = j
Terminates == <>PDone(s)
Emit == s = PInit(Len(deps)) => PrintT("EMIT " \o ToJson(deps))
=============================================================================
