------------------------------- MODULE RLModel -------------------------------
(***************************************************************************)
(* Reinforcement trials: the order in which the steps of an episode are       *)
(* reinforced, as XCSFTrace demands it of recorded trials, and what follows:   *)
(* each step is reinforced once, with its own reward and, unless it ended the   *)
(* episode, the discounted best prediction of the next step.                   *)
(* Action sets are names of steps; payoffs are kept symbolically.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tele
VARIABLES pc, k, V, A, done, log, bred, explore, r
vars == <<pc, k, V, A, done, log, bred, explore, r>>
None == 0
Init == pc = "start" /\ k = 0 /\ V = None /\ A = None /\ done = FALSE /\ log = <<>> /\ bred = <<>> /\ explore \in BOOLEAN /\ r = <<>>
(* match, predict, choose, act: step k has its action set and its reward         *)
Step ==
  /\ pc \in {"start", "trial"} /\ ~done /\ k < Tele
  /\ k' = k + 1 /\ A' = k + 1 /\ r' = Append(r, <<"reward", k + 1>>) /\ done' \in BOOLEAN /\ pc' = "act"
  /\ UNCHANGED <<V, log, bred, explore>>
(* the previous action set learns of this step                                  *)
Back ==
  /\ pc = "act" /\ V # None
  /\ log' = Append(log, [set |-> V, pay |-> <<r[V], "+gamma*max", k>>])
  /\ bred' = IF explore THEN Append(bred, V) ELSE bred
  /\ pc' = "vdone" /\ UNCHANGED <<k, V, A, done, explore, r>>
(* the last action set learns of the reward alone                                *)
Final ==
  /\ pc \in {"act", "vdone"} /\ (V # None => pc = "vdone") /\ done
  /\ log' = Append(log, [set |-> A, pay |-> <<r[A]>>])
  /\ bred' = IF explore THEN Append(bred, A) ELSE bred
  /\ pc' = "adone" /\ UNCHANGED <<k, V, A, done, explore, r>>
EndStep ==
  /\ \/ pc = "adone" \/ (pc = "vdone" /\ ~done) \/ (pc = "act" /\ V = None /\ ~done)
  /\ V' = A /\ pc' = "trial" /\ UNCHANGED <<k, A, done, log, bred, explore, r>>
EndTrial == pc = "trial" /\ (done \/ k = Tele) /\ pc' = "over" /\ UNCHANGED <<k, V, A, done, log, bred, explore, r>>
Next == Step \/ Back \/ Final \/ EndStep \/ EndTrial
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sets == [i \in 1..Len(log) |-> log[i].set]
(* steps are reinforced in order, none twice, none skipped                       *)
InvOrder == Sets = [i \in 1..Len(log) |-> i]
InvOnce == pc = "over" => Len(log) = (IF done THEN k ELSE k - 1)
InvPay == \A i \in 1..Len(log) : log[i].pay = IF i = k /\ done THEN <<<<"reward", i>>>> ELSE <<<<"reward", i>>, "+gamma*max", i + 1>>
InvBreed == bred = IF explore THEN Sets ELSE <<>>
InvCut == k <= Tele
Ends == <>(pc = "over")
=============================================================================
