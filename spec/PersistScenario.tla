-------------------------- MODULE PersistScenario --------------------------
(***************************************************************************)
(* Histories of training, saving, loading, storing, retrieving, exporting   *)
(* and inserting over several models of possibly different configurations.  *)
(* The specification tracks what a client knows: which configuration each    *)
(* model, file and export has, so that only meaningful calls are issued.     *)
(***************************************************************************)
EXTENDS ScenGen
CONSTANTS MaxOps
VARIABLES cfgs, kind, fkind, ekind, skind, ops, n
vars == <<cfgs, kind, fkind, ekind, skind, ops, n>>

NM == 3   \* models
NF == 2   \* files, exports
None == -1

Importable == {"dummy", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary", "dgp", "rule_dgp"}
AnyCond(na) ==
  {"dummy", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary", "tree_gp", "dgp", "neural"}
  \cup (IF na > 1 THEN {"rule_dgp", "rule_neural"} ELSE {})
AnyPred == {"constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic", "neural"}
CondAny(t, xd, na) ==
  CASE t = "neural" -> [type |-> t, args |-> NetAny(xd, 1, "linear", FALSE)]
    [] t = "rule_neural" -> [type |-> t, args |-> NetAny(xd, RuleOut(na), "linear", FALSE)]
    [] OTHER -> CondArgs(t, xd, na)
PredAny(t, xd, yd) ==
  IF t = "neural" /\ Profile = "net" /\ Coin(30) THEN [type |-> t, args |-> Stack(<<Layer(xd, yd, "linear", TRUE, TRUE)>>)]
  ELSE IF t = "neural" THEN [type |-> t, args |-> NetAny(xd, yd, One({"linear", "logistic", "tanh"}), TRUE)] ELSE PredArgs(t, xd, yd)
Cfg(z) ==
  LET xd == One(IF Coin(50) THEN {2, 4} ELSE 1..4)
      na == IF Coin(60) \/ Profile = "net" THEN 1 ELSE One(2..3)
      yd == IF na > 1 THEN 1 ELSE One(1..2)
      ct == One(IF Profile = "net" THEN {"dummy", "hyperrectangle_csr", "hyperellipsoid", "ternary"} ELSE IF Profile = "json" /\ Coin(85) THEN Importable \cap AnyCond(na) ELSE AnyCond(na))
      pt == One(IF Profile = "net" THEN {"neural"} ELSE IF Profile = "json" /\ Coin(85) THEN AnyPred \ {"neural"} ELSE AnyPred)
      act == IF na > 1 /\ Coin(35) /\ ct \notin {"rule_dgp", "rule_neural"} /\ Profile # "json"
             THEN [type |-> "neural", args |-> Net(xd, na, "linear", FALSE)] ELSE [type |-> "integer"]
      p == [pop_size |-> One({4, 6, 9}), pop_init |-> Coin(30), condition |-> CondAny(ct, xd, na), prediction |-> PredAny(pt, xd, yd),
            action |-> act] @@ Params(xd, yd, na)
  IN [x_dim |-> xd, y_dim |-> yd, n_actions |-> na, seed |-> One(1..1000000), params |-> p]

CanImport(c) == c.params.condition.type \in Importable /\ c.params.prediction.type # "neural" /\ c.params.action.type = "integer"

Train(m) == LET c == cfgs[kind[m] + 1] d == Data(c, One(2..4)) IN
  [op |-> "train", m |-> m, x |-> d.x, y |-> d.y, trials |-> One(4..14), start |-> One(0..2), shuffle |-> Coin(40), seed |-> One(1..3)]
(* the same training may be issued again, on another model                   *)
Past(m) == {i \in 1..Len(ops) : ops[i].op = "train" /\ ops[i].c = kind[m]}
TrainAgain(m) == IF Past(m) # {} /\ Coin(60) THEN [ops[One(Past(m))] EXCEPT !.m = m] ELSE Train(m) @@ [c |-> kind[m]]
Probe == {i \in 1..Len(ops) : ops[i].op = "predict"}
Predict(m) ==
  LET old == {i \in Probe : ops[i].c = kind[m]} c == cfgs[kind[m] + 1] IN
  IF old # {} /\ Coin(70) THEN [ops[One(old)] EXCEPT !.m = m]
  ELSE [op |-> "predict", m |-> m, c |-> kind[m], x |-> Data(c, One(1..3)).x, cover |-> [i \in 1..c.y_dim |-> Target(i)]]

Simple(o, m, f) == [op |-> o, m |-> m, f |-> f]
Issue(o) == ops' = Append(ops, o)
Keep(v) == UNCHANGED v

DoTrain == \E m \in {One(0..(NM - 1))} : Issue(TrainAgain(m)) /\ UNCHANGED <<cfgs, kind, fkind, ekind, skind>>
DoPredict == \E m \in {One(0..(NM - 1))} : Issue(Predict(m)) /\ UNCHANGED <<cfgs, kind, fkind, ekind, skind>>
DoSave == \E m \in {One(0..(NM - 1))}, f \in {One(0..(NF - 1))} :
  Issue(Simple("save", m, f)) /\ fkind' = [fkind EXCEPT ![f] = kind[m]] /\ UNCHANGED <<cfgs, kind, ekind, skind>>
DoLoad == \E m \in {One(0..(NM - 1))}, f \in {One(0..(NF - 1))} :
  IF fkind[f] # None /\ skind[m] \in {None, fkind[f]}
  THEN Issue(Simple("load", m, f)) /\ kind' = [kind EXCEPT ![m] = fkind[f]] /\ UNCHANGED <<cfgs, fkind, ekind, skind>>
  ELSE Issue(TrainAgain(m)) /\ UNCHANGED <<cfgs, kind, fkind, ekind, skind>>
DoStore == \E m \in {One(0..(NM - 1))} :
  Issue(Simple("store", m, 0)) /\ skind' = [skind EXCEPT ![m] = kind[m]] /\ UNCHANGED <<cfgs, kind, fkind, ekind>>
DoRetrieve == \E m \in {One(0..(NM - 1))} :
  Issue(Simple("retrieve", m, 0)) /\ skind' = [skind EXCEPT ![m] = None] /\ UNCHANGED <<cfgs, kind, fkind, ekind>>
DoExport == \E m \in {One(0..(NM - 1))}, f \in {One(0..(NF - 1))} :
  Issue(Simple("export", m, f)) /\ ekind' = [ekind EXCEPT ![f] = kind[m]] /\ UNCHANGED <<cfgs, kind, fkind, skind>>
DoInsert == \E m \in {One(0..(NM - 1))}, f \in {One(0..(NF - 1))} :
  IF ekind[f] # None /\ CanImport(cfgs[ekind[f] + 1]) /\ kind[m] = ekind[f]
  THEN Issue(Simple("insert", m, f)) /\ UNCHANGED <<cfgs, kind, fkind, ekind, skind>>
  ELSE Issue(Simple("export", m, f)) /\ ekind' = [ekind EXCEPT ![f] = kind[m]] /\ UNCHANGED <<cfgs, kind, fkind, skind>>
DoConstruct == \E m \in {One(0..(NM - 1))}, f \in {One(0..(NF - 1))} :
  IF ekind[f] # None /\ CanImport(cfgs[ekind[f] + 1])
  THEN Issue([op |-> "construct", m |-> m, f |-> f, cfg |-> ekind[f]]) /\ kind' = [kind EXCEPT ![m] = ekind[f]]
       /\ skind' = [skind EXCEPT ![m] = None] /\ UNCHANGED <<cfgs, fkind, ekind>>
  ELSE Issue(TrainAgain(m)) /\ UNCHANGED <<cfgs, kind, fkind, ekind, skind>>
DoFresh == \E m \in {One(0..(NM - 1))}, k \in {IF Profile = "json" THEN 0 ELSE One(0..(Len(cfgs) - 1))} :
  Issue([op |-> "fresh", m |-> m, cfg |-> k]) /\ kind' = [kind EXCEPT ![m] = k] /\ skind' = [skind EXCEPT ![m] = None] /\ UNCHANGED <<cfgs, fkind, ekind>>

(* the networks of all rules are restructured                                *)
DoExpand == \E m \in {One(0..(NM - 1))} : Issue(Simple("expand", m, 0)) /\ UNCHANGED <<cfgs, kind, fkind, ekind, skind>>
DoToClass == \E m \in {One(0..(NM - 1))}, y \in {One(1..3)}, d \in {One(0..2)} :
  /\ Issue([op |-> "toclass", m |-> m, y |-> y, d |-> d])
  /\ cfgs' = Append(cfgs, [cfgs[kind[m] + 1] EXCEPT !.y_dim = y, !.params.loss_func = "onehot"] @@ [turned |-> TRUE])
  /\ kind' = [kind EXCEPT ![m] = Len(cfgs)] /\ UNCHANGED <<fkind, ekind, skind>>
Given == SelectSeq(cfgs, LAMBDA c : "turned" \notin DOMAIN c)
Init == cfgs = <<>> /\ n = -1 /\ ops = <<>> /\ kind = <<>> /\ fkind = <<>> /\ ekind = <<>> /\ skind = <<>>
Configure ==
  /\ n = -1 /\ n' = 0 /\ ops' = <<>>
  /\ cfgs' = (LET a == Cfg(1) b == Cfg(2) IN IF Profile = "json" \/ Coin(30) THEN <<a>> ELSE <<a, b>>)
  /\ kind' = [m \in 0..(NM - 1) |-> m % Len(cfgs')]
  /\ fkind' = [f \in 0..(NF - 1) |-> None] /\ ekind' = [f \in 0..(NF - 1) |-> None]
  /\ skind' = [m \in 0..(NM - 1) |-> None]
Step(z) ==
  \E r \in {One(1..100)} :
  CASE Profile = "file" ->
         (IF n < 2 \/ r <= 25 THEN DoTrain ELSE IF r <= 45 THEN DoPredict ELSE IF r <= 65 THEN DoSave ELSE IF r <= 95 THEN DoLoad ELSE DoFresh)
    [] Profile = "store" ->
         (IF n < 2 \/ r <= 30 THEN DoTrain ELSE IF r <= 50 THEN DoPredict ELSE IF r <= 72 THEN DoStore ELSE IF r <= 94 THEN DoRetrieve
          ELSE IF r <= 97 THEN DoSave ELSE DoLoad)
    [] Profile = "net" ->
         (IF n < 1 \/ r <= 35 THEN DoTrain ELSE IF r <= 50 THEN DoPredict ELSE IF r <= 65 THEN DoExpand ELSE IF r <= 78 THEN DoToClass
          ELSE IF r <= 88 THEN DoSave ELSE DoLoad)
    [] Profile = "json" ->
         (IF n < 2 \/ r <= 25 THEN DoTrain ELSE IF r <= 40 THEN DoPredict ELSE IF r <= 60 THEN DoExport ELSE IF r <= 82 THEN DoInsert ELSE IF r <= 90 THEN DoConstruct ELSE DoFresh)
Next ==
  \/ Configure
  \/ /\ n >= 0 /\ n < MaxOps /\ n' = n + 1
     /\ Step(n)
     /\ (n' = MaxOps => PrintT("SCN " \o ToJson([cfgs |-> Given, models |-> NM, ops |-> ops'])))
Spec == Init /\ [][Next]_vars
=============================================================================
