---------------------------- MODULE ParamScenario ---------------------------
(* Histories of parameter settings, legal and illegal, by setters, JSON and   *)
(* files.                                                                     *)
EXTENDS Param, Json
CONSTANTS MaxOps
VARIABLES dims, ops
vars == <<dims, ops>>
One(S) == RandomElement(S)
Coin(p) == One(1..100) <= p
R(i, d) == FStr(FDiv(F(i), F(d)))
LegalVal(n) ==
  LET p == Numbers[n] IN
  CASE p.k = "bool" -> (IF Coin(50) THEN TRUE ELSE FALSE)
    [] p.k = "int" -> (IF p.lo = "" THEN One({-1, 0, 7, 123}) ELSE LET lo == FInt(p.lo) IN One({lo, lo + 1, lo + One(2..900)} \ (IF p.hi = "" THEN {} ELSE (FInt(p.hi) + 1)..2000)))
    [] p.hi # "" -> (IF Coin(30) THEN One({p.lo, p.hi}) ELSE R(One(1..999), 1000))
    [] p.lo # "" -> (IF Coin(20) THEN p.lo ELSE R(One(1..5000), 100))
    [] OTHER -> R(One(-500..500), 100)
IllegalVal(n) ==
  LET p == Numbers[n] up == p.hi # "" /\ Coin(50) IN
  IF p.k = "int" THEN (IF up THEN FInt(p.hi) + One({1, 2, 500}) ELSE FInt(p.lo) - One({1, 2, 50}))
  ELSE IF up THEN One({"1.0000001", "1.5", "40"}) ELSE One({"-0.0000001", "-1", "-40"})
Bounded == {n \in DOMAIN Numbers : Numbers[n].k # "bool" /\ (Numbers[n].lo # "" \/ Numbers[n].hi # "")}
Sayable(n) == Words[n]

SetOp(z) ==
  LET u == One(1..100) IN
  IF u <= 50 THEN \E n \in {One(DOMAIN Numbers)} : ops' = Append(ops, [op |-> "set", name |-> n, v |-> LegalVal(n)])
  ELSE IF u <= 80 THEN \E n \in {One(Bounded \ {"x_dim"})} : ops' = Append(ops, [op |-> "set", name |-> n, v |-> IllegalVal(n)])
  ELSE \E n \in {One(DOMAIN Words)} : ops' = Append(ops, [op |-> "set", name |-> n, v |-> IF Coin(75) THEN One(Sayable(n)) ELSE One({"", "none", "Mae", "mae2", "dgp_"})])
(* a JSON document with some parameters                                       *)
Tops == {n \in DOMAIN Numbers : \A i \in 1..StrLen(n) : Chars(n)[i] # "."}
Eas == {"select_size", "theta_ea", "lambda", "p_crossover", "err_reduc", "fit_reduc", "subsumption", "pred_reset"}
Some(S, k) == {One(S) : i \in 1..k}
ArgsFor(t) ==
  CASE t \in {"hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid"} -> {"eta", "min", "max", "spread_min"}
    [] t = "ternary" -> {"p_dontcare", "bits"}
    [] t \in {"dgp", "rule_dgp"} -> {"max_k", "max_t", "n", "evolve_cycles"}
    [] t = "tree_gp" -> {"min_constant", "max_constant", "n_constants", "init_depth", "max_len"}
    [] t \in {"nlms_linear", "nlms_quadratic"} -> {"x0", "eta", "evolve_eta", "eta_min"}
    [] t \in {"rls_linear", "rls_quadratic"} -> {"x0", "lambda", "scale_factor"}
    [] OTHER -> {}
Sub(t, name(_)) ==
  LET a == ArgsFor(t) IN
  IF a = {} \/ Coin(20) THEN [type |-> t] ELSE [type |-> t, args |-> [f \in Some(a, 3) |-> LegalVal(name(f))]]
(* networks                                                                   *)
Acts == {"logistic", "relu", "tanh", "linear", "gaussian", "sin", "cos", "softplus", "leaky", "selu", "loggy"}
Maybe(p, f, v) == IF Coin(p) THEN f :> v ELSE <<>>
Grown(z) == IF Coin(50) THEN [evolve_neurons |-> TRUE, max_neuron_grow |-> One(1..3)] @@ Maybe(60, "n_max", One(1..9)) ELSE Maybe(30, "evolve_neurons", FALSE)
Trained(z) == IF Coin(50) THEN [sgd_weights |-> TRUE] @@ Maybe(80, "eta", R(One(1..100), 1000)) @@ Maybe(50, "evolve_eta", Coin(50)) @@ Maybe(50, "eta_min", R(One(1..9), 10000))
                               @@ Maybe(50, "momentum", R(One(1..99), 100)) @@ Maybe(50, "decay", R(One(1..99), 1000)) ELSE Maybe(30, "sgd_weights", FALSE) @@ Maybe(20, "eta", "0.3")
Heavy(t) == [type |-> t, n_init |-> One(1..4)] @@ Maybe(70, "activation", One(Acts)) @@ Maybe(50, "evolve_weights", Coin(70)) @@ Maybe(50, "evolve_functions", Coin(50))
            @@ Maybe(50, "evolve_connect", Coin(50)) @@ Grown(0) @@ Trained(0)
Front(z) ==
  LET u == One(1..5) IN
  CASE u <= 2 -> Heavy("connected")
    [] u = 3 -> Heavy("recurrent")
    [] u = 4 -> Heavy("lstm") @@ Maybe(60, "recurrent_activation", One(Acts))
    [] OTHER -> Heavy("convolutional") @@ [height |-> 3, width |-> One(3..4), channels |-> One(1..2), size |-> One(1..2), stride |-> One(1..2)] @@ Maybe(50, "pad", 1)
Light(z) == One({[type |-> "dropout", probability |-> R(One(0..10), 10)], [type |-> "noise", probability |-> R(One(0..10), 10), scale |-> R(One(1..20), 10)],
                 [type |-> "softmax", scale |-> R(One(1..20), 10)]})
Follow(t) == IF t = "convolutional" /\ Coin(50)
             THEN One({[type |-> "avgpool"], [type |-> "maxpool", size |-> 1, stride |-> One(1..2), pad |-> 0], [type |-> "upsample", stride |-> One(2..3)]})
             ELSE Light(0)
NetDoc(z) ==
  LET f == Front(0) q == <<f>> \o (IF Coin(50) THEN <<Follow(f.type)>> ELSE <<>>) \o (IF Coin(60) THEN <<Heavy("connected")>> ELSE <<>>) IN
  [nm \in {"layer_" \o ToString(i - 1) : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : nm = "layer_" \o ToString(i - 1)]]
Networked(t) == [type |-> t] @@ Maybe(85, "args", NetDoc(0))
CondDoc(z) == IF Coin(25) THEN Networked(One(NetTypes)) ELSE LET t == One(Sayable("cond.type")) nm(f) == CondArg(t, f) IN Sub(t, nm)
PredDoc(z) == IF Coin(30) THEN Networked("neural") ELSE LET t == One(Sayable("pred.type")) nm(f) == "pred." \o f IN Sub(t, nm)
Doc(z) ==
  [f \in Some(Tops, One(1..4)) |-> LegalVal(f)]
  @@ (IF Coin(40) THEN [ea |-> [f \in Some(Eas, 3) |-> LegalVal("ea." \o f)] @@ (IF Coin(30) THEN [select_type |-> One({"roulette", "tournament"})] ELSE <<>>)] ELSE <<>>)
  @@ (IF Coin(30) THEN [loss_func |-> One(Words["loss_func"])] ELSE <<>>)
  @@ (IF Coin(40) THEN [condition |-> CondDoc(0)] ELSE <<>>)
  @@ (IF Coin(40) THEN [prediction |-> PredDoc(0)] ELSE <<>>)
  @@ (IF Coin(20) THEN [action |-> IF Coin(30) THEN [type |-> "integer"] ELSE Networked("neural")] ELSE <<>>)
BadDoc(z) ==
  LET u == One(1..9) t == One({"hyperrectangle_csr", "ternary", "dgp", "tree_gp"}) q == One({"nlms_linear"}) IN
  CASE u <= 3 -> (LET n == One(Tops \cap Bounded) IN n :> IllegalVal(n))
    [] u = 4 -> (LET f == One({"select_size", "theta_ea", "lambda", "p_crossover", "err_reduc", "fit_reduc"}) IN [ea |-> f :> IllegalVal("ea." \o f)])
    [] u = 5 -> (LET f == One({g \in ArgsFor(t) : CondArg(t, g) \in Bounded}) IN [condition |-> [type |-> t, args |-> f :> IllegalVal(CondArg(t, f))]])
    [] u = 6 -> (LET f == One({"eta", "eta_min"}) IN [prediction |-> [type |-> q, args |-> f :> IllegalVal("pred." \o f)]])
    [] u = 7 -> One({[nosuch |-> 1], [ea |-> [nosuch |-> 1]], [condition |-> [type |-> t, args |-> [nosuch |-> 1]]], [prediction |-> [type |-> q, args |-> [nosuch |-> 1]]],
                     [condition |-> [type |-> "nosuch"]], [prediction |-> [type |-> "nosuch"]], [action |-> [type |-> "nosuch"]], [loss_func |-> "nosuch"], [ea |-> [select_type |-> "nosuch"]]})
    [] u = 8 -> LET h == Heavy("connected") part == One({"condition", "prediction", "action"})
                    l == One({h @@ [nosuch |-> 1], [h EXCEPT !.type = "nosuch"], [activation |-> "nosuch"] @@ h,
                              [evolve_neurons |-> TRUE, max_neuron_grow |-> 0] @@ h}) IN
                part :> [type |-> "neural", args |-> [layer_0 |-> l]]
    [] OTHER -> (LET n == One(Tops) IN n :> "word")
Init == dims = <<>> /\ ops = <<>>
Next ==
  \/ dims = <<>> /\ dims' = <<One(1..3), One(1..3), One(1..3)>> /\ ops' = <<>>
  \/ /\ dims # <<>> /\ Len(ops) < MaxOps /\ UNCHANGED dims
     /\ \E u \in {One(1..100)} :
        IF u <= 58 THEN SetOp(0)
        ELSE IF u <= 66 THEN ops' = Append(ops, [op |-> "conf", style |-> One(0..3), kv |-> Doc(0)])
        ELSE IF u <= 76 THEN ops' = Append(ops, [op |-> "json", kv |-> Doc(0)])
        ELSE IF u <= 88 THEN ops' = Append(ops, [op |-> "bad", kv |-> BadDoc(0)])
        ELSE IF u <= 95 THEN ops' = Append(ops, [op |-> "round"])
        ELSE ops' = Append(ops, [op |-> "file"])
     /\ (Len(ops') = MaxOps => PrintT("SCN " \o ToJson([dims |-> dims, ops |-> ops'])))
Spec == Init /\ [][Next]_vars
=============================================================================
