------------------------------ MODULE Scenario ------------------------------
(***************************************************************************)
(* Histories of calls: the environment of the system.  A behaviour of this  *)
(* specification is a configuration followed by a history of operations a   *)
(* client may issue (training, prediction, scoring, reinforcement trials,   *)
(* maze and multiplexer experiments, statistics probes).  TLC's simulation  *)
(* mode draws behaviours; each complete one is printed as one JSON line,    *)
(* which harness/xdrive.c replays on the real library.                      *)
(***************************************************************************)
EXTENDS ScenGen

CONSTANTS MaxOps     \* operations per history
VARIABLES cfg, ops, n
vars == <<cfg, ops, n>>

NextOp(c) ==
  CASE Profile = "bigrl" -> (IF Coin(70) THEN RLOp(c) ELSE RLFitOp(c))
    [] Profile \in {"rl", "rlany", "self"} ->
         LET k == One(1..10) IN
         IF k <= 7 THEN RLOp(c) ELSE IF k <= 9 \/ Profile \in {"rlany", "self"} THEN RLFitOp(c) ELSE ActStatOp(c)
    [] Profile = "op" -> (CASE n % 2 = 1 -> PartsOp(c) [] OTHER -> IF Coin(70) THEN RLOp(c) ELSE RLFitOp(c))
    [] Profile = "act" -> LET k == One(1..10) IN IF k <= 5 THEN ActStatOp(c) ELSE RLOp(c)
    [] Profile = "env" -> RlExpOp(c)
    [] Profile = "stat" ->
         (CASE n = 0 -> FitOp(c) [] n % 3 = 1 -> PokeOp(c) [] n % 3 = 2 -> DelStatOp(c) [] OTHER -> SelStatOp(c))
    [] Profile = "nn" -> (IF Coin(70) THEN RLOp(c) ELSE RLFitOp(c))
    [] Profile = "edge" ->
         (CASE n % 2 = 0 -> InsertOp(c) [] OTHER -> IF Coin(80) THEN FitOp(c) ELSE PredictOp(c))
    [] Profile = "loss" -> LossOp(c)
    [] Profile = "purerl" -> (IF n % 2 = 0 THEN RLOp(c) ELSE PredictOp(c))
    [] Profile = "comp" -> (IF n % 2 = 0 THEN FitOp(c) ELSE DelStatOp(c))
    [] Profile = "subrl" ->
         (CASE n % 3 = 2 -> PokeOp(c) [] OTHER -> IF Coin(70) THEN RLOp(c) ELSE RLFitOp(c))
    [] Profile = "sub" ->
         (CASE n = 0 -> FitOp(c) [] n % 2 = 1 -> PokeOp(c) [] OTHER -> FitOp(c))
    [] OTHER ->
         LET k == One(1..10) IN
         IF k <= 6 THEN FitOp(c) ELSE IF k <= 8 THEN PredictOp(c) ELSE ScoreOp(c)

Init == cfg = <<>> /\ ops = <<>> /\ n = -1
Configure == n = -1 /\ cfg' = Config(n) /\ n' = 0 /\ ops' = <<>>
Issue ==
  /\ n >= 0 /\ n < MaxOps
  /\ n' = n + 1
  /\ ops' = Append(ops, NextOp(cfg))
  /\ UNCHANGED cfg
  /\ (n' = MaxOps => PrintT("SCN " \o ToJson([c |-> cfg, ops |-> ops'])))
Next == Configure \/ Issue
Spec == Init /\ [][Next]_vars
=============================================================================
