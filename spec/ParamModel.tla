----------------------------- MODULE ParamModel -----------------------------
(* Every parameter set to values at and around the ends of its range, twice in a   *)
(* row: the value in effect is always legal, a refused or clamped request never     *)
(* leaves an illegal one, and repeating a request changes nothing.                  *)
EXTENDS Param
VARIABLES n, s, k, asked
vars == <<n, s, k, asked>>
Names == DOMAIN Numbers \cup DOMAIN Words
Near(b) == IF b = "" THEN {"-7", "0", "13"} ELSE {D0(b), FSub(b, "1"), FAdd(b, "1"), FSub(b, "0.0001"), FAdd(b, "0.0001")}
Tries(a) == IF a \in DOMAIN Words THEN Words[a] \cup {"nonsense"} ELSE Near(Numbers[a].lo) \cup Near(Numbers[a].hi)
Start(a) == IF a \in DOMAIN Words THEN WordDef[a] ELSE Numbers[a].def
Init == n \in Names /\ s = Start(n) /\ k = 0 /\ asked = ""
Next == k < 2 /\ k' = k + 1 /\ n' = n /\ \E v \in Tries(n) : asked' = v /\ s' = Outcome(n, s, v)
Spec == Init /\ [][Next]_vars
InvLegal == Legal(n, s)
InvAsked == (asked # "" /\ Legal(n, asked)) => s = asked
InvIdem == asked # "" => Outcome(n, s, asked) = s
InvClamped == (n \in DOMAIN Numbers /\ asked # "" /\ ~Legal(n, asked) /\ Numbers[n].how = "clamp") =>
   s \in {D0(Numbers[n].lo)} \cup (IF Numbers[n].hi = "" THEN {} ELSE {D0(Numbers[n].hi)})
StepRefused == [][Refused(n, asked') => s' = s]_vars
=============================================================================
