------------------------------ MODULE ScenGen -------------------------------
(***************************************************************************)
(* Random draws of configurations, data and calls, shared by the scenario   *)
(* specifications.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Dbl

CONSTANTS Profile    \* family of configurations and operations

One(S) == RandomElement(S)
Real(i, d) == FStr(FDiv(F(i), F(d)))
(* an input value: a grid point, so that ties and boundaries occur           *)
Unit(z) == IF Profile = "edge" THEN Real(One(0..8), 8) ELSE Real(One(0..20), 20)
Fine(z) == Real(One(0..1000), 1000)
Target(z) == Real(One(-20..20), 10)
(* now and then a value outside the usual range                                *)
Wild(z) == One({"-0.5", "1.5", "3", "-2", "0.5", "1e-9", "-1e-9", "40"})
In(z, w) == IF w THEN Wild(z) ELSE Unit(z)
Vec(k, op(_)) == [i \in 1..k |-> op(i)]
Coin(p) == One(1..100) <= p

Conds(p) ==
  CASE p = "loss" -> {"dummy"}
    [] p = "nn" -> {"neural", "rule_neural"}
    [] p = "edge" -> {"hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary"}
    [] p \in {"sup", "ops", "sub"} -> {"hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary"}
    [] p \in {"big", "bigrl"} -> {"hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary", "tree_gp", "dgp"}
    [] p = "any" -> {"dummy", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary", "tree_gp", "dgp", "neural"}
    [] p = "prog" -> {"tree_gp", "dgp", "rule_dgp"}
    [] p = "stat" -> {"hyperrectangle_csr", "hyperrectangle_ubr", "ternary", "hyperellipsoid", "tree_gp", "neural"}
    [] p = "comp" -> {"tree_gp", "neural", "hyperrectangle_csr", "dummy"}
    [] p = "subrl" -> {"hyperrectangle_csr", "hyperrectangle_ubr", "ternary", "hyperellipsoid", "dummy"}
    [] p \in {"rl", "act", "purerl"} -> {"hyperrectangle_csr", "hyperrectangle_ubr", "ternary", "hyperellipsoid"}
    [] p \in {"rlany", "op"} -> {"hyperrectangle_csr", "hyperrectangle_ubr", "ternary", "tree_gp", "dgp", "rule_dgp", "dummy", "neural", "rule_neural"} \cup (IF p = "op" THEN {"hyperellipsoid"} ELSE {})
    [] p = "self" -> {"rule_dgp", "rule_neural"}
    [] p = "env" -> {"hyperrectangle_csr", "hyperrectangle_ubr", "ternary"}
    [] OTHER -> {"dummy", "hyperrectangle_csr"}
Preds(p) ==
  CASE p = "comp" -> {"constant", "neural"}
    [] p \in {"big", "bigrl"} -> {"constant", "nlms_linear"}
    [] p \in {"op", "pred", "any", "stat"} -> {"constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic", "neural"}
    [] p \in {"rl", "rlany", "self", "env", "act", "subrl", "purerl", "nn"} -> {"constant", "nlms_linear", "rls_linear"}
    [] OTHER -> {"constant", "nlms_linear", "nlms_quadratic", "rls_linear"}

Acts == {"logistic", "relu", "tanh", "linear", "gaussian", "sin", "cos", "softplus", "leaky", "selu", "loggy"}
Layer(ni, no, act, last, sgd) ==
  [type |-> "connected", activation |-> act, n_inputs |-> ni, n_init |-> no,
   evolve_weights |-> TRUE, evolve_functions |-> Coin(40) /\ ~last, evolve_connect |-> Coin(40),
   evolve_neurons |-> (~last /\ Coin(40)), n_max |-> no + 2, max_neuron_grow |-> 1,
   sgd_weights |-> sgd, eta |-> Real(One({5, 10, 50}), 100), evolve_eta |-> Coin(40), eta_min |-> "0.001",
   momentum |-> Real(One({0, 9}), 10), decay |-> Real(One({0, 1}), 100)]
Net(ni, no, lastact, sgd) ==
  LET h == One(1..4) IN
  [layer_0 |-> Layer(ni, h, One(Acts), FALSE, sgd), layer_1 |-> Layer(h, no, lastact, TRUE, sgd)]
(* a network of any supported layer kinds; the input is ni values, seen as a    *)
(* 2 x ni/2 image by the image layers when ni is even                          *)
Conv(h, w, c, act, sgd) ==
  LET pd == One(0..1) st == One(1..2) sz == One(IF w = 1 /\ pd = 0 THEN {1} ELSE {1, 2}) IN
  [type |-> "convolutional", activation |-> act, height |-> h, width |-> w, channels |-> c,
   size |-> sz, stride |-> st, pad |-> pd, n_init |-> One(1..2),
   evolve_weights |-> TRUE, evolve_functions |-> Coin(40), evolve_connect |-> Coin(40),
   sgd_weights |-> sgd, eta |-> Real(One({5, 10}), 100), evolve_eta |-> Coin(40), eta_min |-> "0.001",
   momentum |-> Real(One({0, 9}), 10), decay |-> Real(One({0, 1}), 100)]
Recur(ty, ni, no, sgd) ==
  [Layer(ni, no, One({"logistic", "tanh", "linear"}), FALSE, sgd) EXCEPT !.type = ty] @@
  (IF ty = "lstm" THEN [recurrent_activation |-> One({"logistic", "tanh"})] ELSE <<>>)
Front(ni, sgd) ==
  LET even == ni % 2 = 0
      k == One(IF even THEN 1..10 ELSE 1..5)
      img == [height |-> 2, width |-> ni \div 2, channels |-> 1] IN
  CASE k = 1 -> <<Recur("recurrent", ni, One(1..3), sgd)>>
    [] k = 2 -> <<Recur("lstm", ni, One(1..2), sgd)>>
    [] k = 3 -> <<Layer(ni, One(1..3), One(Acts), FALSE, sgd), [type |-> "dropout", probability |-> "0.3"]>>
    [] k = 4 -> <<[type |-> "noise", n_inputs |-> ni, probability |-> "0.5", scale |-> "0.2"], Layer(ni, One(1..3), One(Acts), FALSE, sgd)>>
    [] k = 5 -> <<Layer(ni, One(2..3), One(Acts), FALSE, sgd), [type |-> "softmax", scale |-> Real(One({5, 10}), 10)]>>
    [] k = 6 -> <<Conv(2, ni \div 2, 1, One({"logistic", "relu", "tanh", "linear"}), sgd)>>
    [] k = 7 -> <<img @@ (IF ni = 2 THEN [type |-> "maxpool", size |-> 1, stride |-> 1, pad |-> 0]
                               ELSE [type |-> "maxpool", size |-> 2, stride |-> One(1..2), pad |-> One(0..1)])>>
    [] k = 8 -> <<Conv(2, ni \div 2, 1, "tanh", sgd), [type |-> "avgpool"]>>
    [] k = 9 -> <<img @@ [type |-> "upsample", stride |-> 2]>>
    [] k = 10 -> <<Conv(2, ni \div 2, 1, "logistic", sgd), [type |-> "maxpool", size |-> 1, stride |-> 1, pad |-> 0]>>
Stack(q) == [k \in {"layer_" \o ToString(i - 1) : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : k = "layer_" \o ToString(i - 1)]]
NetAny(ni, no, lastact, sgd) ==
  LET f == Front(ni, sgd) IN Stack(f \o <<Layer(1, no, lastact, TRUE, sgd)>>)
(* outputs of a self-contained rule network: match node and action bits      *)
RuleOut(na) == 1 + (IF na <= 2 THEN 1 ELSE IF na <= 4 THEN 2 ELSE 3)

CondArgs(t, xd, na) ==
  CASE t \in {"hyperrectangle_csr", "hyperellipsoid", "hyperrectangle_ubr"} ->
         LET r == One({1, 1, 1, 2, 3, 4}) IN
         [type |-> t, args |-> [eta |-> IF t = "hyperrectangle_ubr" THEN "0" ELSE Real(One({0, 0, 1, 5}), 10),
                                min |-> <<"0", "-1", "-2", "0">>[r], max |-> <<"1", "1", "3", "2">>[r],
                                spread_min |-> Real(One({1, 2, 5, 10}), 10)]]
    [] t = "ternary" -> [type |-> t, args |-> [p_dontcare |-> Real(One({0, 3, 5, 9}), 10), bits |-> One(1..3)]]
    [] t = "tree_gp" -> [type |-> t, args |-> [min_constant |-> One({"-1", "-1", "0", "-5"}), max_constant |-> One({"1", "1", "2"}), n_constants |-> One(1..5),
                                               init_depth |-> One(1..4), max_len |-> 10000]]
    [] t \in {"dgp", "rule_dgp"} ->
         [type |-> t, args |-> [max_k |-> One(1..3), max_t |-> One(1..6), n |-> One(4..7), evolve_cycles |-> Coin(50)]]
    [] t = "neural" -> [type |-> t, args |-> Net(xd, 1, "linear", FALSE)]
    [] t = "rule_neural" -> [type |-> t, args |-> Net(xd, RuleOut(na), "linear", FALSE)]
    [] OTHER -> [type |-> t]
PredArgs(t, xd, yd) ==
  CASE t \in {"nlms_linear", "nlms_quadratic"} ->
         [type |-> t, args |-> [x0 |-> Real(One({5, 10}), 10), eta |-> Real(One({1, 5, 10}), 10),
                                evolve_eta |-> Coin(50), eta_min |-> "0.01"]]
    [] t \in {"rls_linear", "rls_quadratic"} ->
         [type |-> t, args |-> [x0 |-> Real(One({5, 10}), 10), lambda |-> Real(One({90, 100}), 100),
                                scale_factor |-> One({1, 10, 1000})]]
    [] t = "neural" -> [type |-> t, args |-> Net(xd, yd, One({"linear", "logistic", "tanh"}), TRUE)]
    [] OTHER -> [type |-> t]

Losses(p) == IF p \in {"bigrl", "op", "rl", "rlany", "self", "subrl", "purerl", "nn", "env", "act", "stat", "comp"} THEN {"mae", "mse", "rmse", "huber"}
             ELSE {"mae", "mse", "rmse", "log", "binary_log", "onehot", "huber"}
Params(xd, yd, na) ==
  LET ct == One(Conds(Profile))
      loss == One(Losses(Profile)) IN
  [pop_size |-> IF Profile = "big" THEN One({100, 200}) ELSE IF Profile = "bigrl" THEN One({60, 120}) ELSE IF na > 4 THEN One({12, 20}) ELSE IF Coin(4) /\ Profile # "comp" THEN 60 ELSE IF ct \in {"neural", "rule_neural"} THEN One({6, 10}) ELSE IF Profile = "env" THEN One({12, 20}) ELSE One({5, 8, 12, 20}), pop_init |-> (Coin(40) \/ Profile = "big") /\ Profile # "env",
   loss_func |-> IF Profile = "pred" THEN "mae" ELSE loss,
   huber_delta |-> Real(One({2, 10}), 10),
   gamma |-> Real(One({0, 71, 95}), 100), teletransportation |-> One({3, 8, 8, 1}),
   p_explore |-> Real(One({0, 5, 9, 10}), 10),
   set_subsumption |-> Coin(50), theta_sub |-> IF Coin(6) THEN One({20, 100}) ELSE One({0, 2, 5}),
   e0 |-> Real(One({1, 10, 50, 100}), 100), alpha |-> Real(One({1, 5, 10}), 10), nu |-> IF Coin(6) THEN One({"0", "0.5", "8"}) ELSE One({"1", "2", "5"}),
   beta |-> IF Coin(6) THEN One({"0.01", "1", "0"}) ELSE Real(One({10, 20, 50}), 100), delta |-> Real(One({1, 5, 10}), 10), theta_del |-> IF Coin(6) THEN One({20, 50}) ELSE One({0, 3, 10}),
   init_fitness |-> Real(One({1, 100, 10000}), 1000000) , init_error |-> Real(One({0, 0, 5}), 10),
   m_probation |-> IF Coin(50) /\ Profile # "comp" THEN One({2, 5}) ELSE 10000,
   stateful |-> Coin(50), compaction |-> Coin(40) \/ Profile = "comp",
   ea |-> LET sel == One({"roulette", "tournament"}) IN
          [select_type |-> sel, select_size |-> Real(One({3, 5, 8}), 10), theta_ea |-> IF Coin(6) THEN One({25, 50}) ELSE One({0, 1, 3, 10}),
           lambda |-> IF Coin(6) THEN One({5, 6}) ELSE One({2, 3, 4}), p_crossover |-> Real(One({0, 5, 8, 10}), 10),
           err_reduc |-> Real(One({5, 10}), 10), fit_reduc |-> Real(One({1, 10}), 10),
           subsumption |-> Coin(60), pred_reset |-> Coin(25)],
   action |-> IF Profile \in {"rlany", "op", "act", "purerl"} /\ na > 1 /\ ct \notin {"rule_dgp", "rule_neural"} /\ Coin(25)
              THEN IF Coin(50) THEN [type |-> "neural", args |-> Net(xd, na, "linear", FALSE)] ELSE [type |-> "neural"]
              ELSE [type |-> "integer"],
   condition |-> CondArgs(ct, xd, na),
   prediction |-> PredArgs(One(Preds(Profile)), xd, yd)]

RLProfile == Profile \in {"bigrl", "op", "rl", "rlany", "self", "act", "subrl", "purerl", "nn"}
Config(z) ==
  LET xd == IF Profile = "env" THEN 8 ELSE IF Profile \in {"big", "bigrl"} THEN One({7, 12}) ELSE IF Coin(8) THEN One({4, 6}) ELSE One(1..3)
      yd == IF RLProfile \/ Profile \in {"env", "stat", "comp"} THEN 1 ELSE IF Profile = "loss" THEN One(1..5) ELSE IF Profile = "big" THEN One({1, 6}) ELSE One(1..3)
      na == IF Profile = "bigrl" THEN One({3, 12}) ELSE IF Profile = "self" THEN One({2, 3, 5, 6, 8}) ELSE IF RLProfile THEN IF Coin(10) THEN One({5, 8}) ELSE One(2..4) ELSE 1
  IN [name |-> Profile, x_dim |-> xd, y_dim |-> yd, n_actions |-> na, seed |-> One(1..1000000),
      dump_pred |-> 1, params |-> Params(xd, yd, na)]

(* distinct rows *)
RECURSIVE Distinct(_, _, _)
Distinct(q, k, d) ==
  IF k = 0 THEN q
  ELSE LET w == Coin(5)
           v == [i \in 1..d |-> IF w THEN Wild(i) ELSE IF Coin(70) \/ Profile = "edge" THEN Unit(i) ELSE Fine(i)] IN
       IF \E j \in 1..Len(q) : q[j] = v THEN Distinct(q, k, d) ELSE Distinct(Append(q, v), k - 1, d)
Hot(k) == LET h == One(1..k) IN [i \in 1..k |-> IF i = h THEN "1" ELSE "0"]
Out(c) == IF c.params.loss_func \in {"log", "binary_log", "onehot"} THEN Hot(c.y_dim)
          ELSE [i \in 1..c.y_dim |-> Target(i)]
Data(c, k) == [x |-> Distinct(<<>>, k, c.x_dim), y |-> [i \in 1..k |-> Out(c)]]

Long == Profile \in {"sup", "any", "sub"}
FitOp(c) ==
  LET d == Data(c, One(2..6)) t == Data(c, One(1..4))
      base == [op |-> "fit", x |-> d.x, y |-> d.y, trials |-> IF Coin(3) /\ Long THEN 120 ELSE One(6..24), start |-> One(0..3), shuffle |-> Coin(50)]
  IN IF Coin(35) THEN base @@ [tx |-> t.x, ty |-> t.y] ELSE base
Cover(c) == [i \in 1..(c.y_dim * c.n_actions) |-> Target(i)]
PredictOp(c) ==
  LET d == Data(c, One(1..4)) b == [op |-> "predict", x |-> d.x] IN
  IF Coin(50) THEN b @@ [cover |-> Cover(c)] ELSE b
ScoreOp(c) ==
  LET d == Data(c, One(2..5)) b == [op |-> "score", x |-> d.x, y |-> d.y, N |-> One({0, 0, 2, 3, 9})] IN
  IF Coin(50) THEN b @@ [cover |-> Cover(c)] ELSE b
StepRec(c, last) ==
  [x |-> LET w == Coin(5) IN [i \in 1..c.x_dim |-> In(i, w)], r |-> Real(One({0, 0, 10, 5, -3}), 10), done |-> last, maxp |-> Real(One({10, 25}), 10)]
  @@ (IF Coin(25) THEN [a |-> One(0..(c.n_actions - 1))] ELSE [z |-> 0])
RLOp(c) ==
  LET k == One(1..5) ends == Coin(80) IN
  [op |-> "rltrial", explore |-> Coin(70), steps |-> [i \in 1..k |-> StepRec(c, ends /\ i = k)]]
RLFitOp(c) == [op |-> "rlfit", x |-> LET w == Coin(5) IN [i \in 1..c.x_dim |-> In(i, w)], a |-> One(0..(c.n_actions - 1)), r |-> Target(0)]
ActStatOp(c) == [op |-> "actstat", N |-> 3000, explore |-> Coin(70), x |-> [i \in 1..c.x_dim |-> Unit(i)]]
DelStatOp(c) == [op |-> "delstat", N |-> 4000] @@ [err |-> One({"0", "1000", c.params.e0})]
PartsOp(c) == [op |-> "parts", N |-> 3]
SelStatOp(c) == [op |-> "selstat", N |-> 4000, k |-> One({2, 3, 100})]
RuleStats(i) ==
  LET old == Coin(6) g == IF old THEN One({60, 1000, 20000}) ELSE One(0..8) IN
  [exp |-> IF old THEN One({30, 200, 5000}) ELSE One(0..8), err |-> IF Coin(5) THEN One({"25", "1e-7"}) ELSE Real(One(0..10), 10), fit |-> IF Coin(80) THEN Real(One(1..100), 100) ELSE Real(One(1..100), 1000000), size |-> Real(One(10..50), 10),
   num |-> IF Coin(5) THEN 20 ELSE One(1..3), age |-> g, mtotal |-> IF Coin(50) THEN 0 ELSE One(0..g)]
PokeOp(c) == [op |-> "poke", rules |-> [i \in 1..5 |-> RuleStats(i)]]
(* rules given as text, on a grid, so that inputs fall on their boundaries and  *)
(* rules coincide                                                              *)
Eighth(i) == Real(One(0..8), 8)
Wide(i) == Real(One(1..8), 8)
GridCond(c) ==
  LET t == c.params.condition.type d == c.x_dim IN
  CASE t \in {"hyperrectangle_csr", "hyperellipsoid"} -> [type |-> t, center |-> Vec(d, Eighth), spread |-> Vec(d, Wide)]
    [] t = "hyperrectangle_ubr" -> [type |-> t, bound1 |-> Vec(d, Eighth), bound2 |-> Vec(d, Eighth)]
    [] OTHER -> [type |-> t, string |-> <<"s">> \o [i \in 1..(d * c.params.condition.args.bits) |-> One({"0", "1", "#", "#"})]]
InsertOp(c) ==
  [op |-> "insert",
   pop |-> [classifiers |-> [i \in 1..One(1..3) |->
     LET r == RuleStats(i) IN
     [error |-> r.err, fitness |-> r.fit, set_size |-> r.size, numerosity |-> r.num, experience |-> r.exp, time |-> 0,
      samples_seen |-> r.age, samples_matched |-> r.mtotal, condition |-> GridCond(c)]]]]
(* predictions and targets for a loss: plain, at the thresholds, equal, wild   *)
LossNum(i) == LET k == One(1..12) IN
  CASE k <= 4 -> Real(One(-20..20), 10) [] k <= 7 -> Fine(i) [] k = 8 -> "0" [] k = 9 -> "1" [] k = 10 -> Real(One({2, 10, -2, -10}), 10)
    [] k = 11 -> One({"1e-17", "1e-13", "1e-10", "0.9999999999"}) [] OTHER -> Real(One(-1000..1000), 1)
LossOp(c) ==
  LET d == c.y_dim
      p == [i \in 1..10 |-> [j \in 1..d |-> LossNum(j)]] IN
  [op |-> "loss", p |-> p,
   y |-> [i \in 1..10 |-> LET k == One(1..10) IN IF k <= 4 THEN Hot(d) ELSE IF k = 5 THEN p[i] ELSE [j \in 1..d |-> LossNum(j)]]]
RlExpOp(c) == [op |-> "rlexp", trials |-> One(2..6)]

=============================================================================
