------------------------------- MODULE Param --------------------------------
(***************************************************************************)
(* The parameters: what each may be, its default, and what setting it does.  *)
(* Values in effect are a function from names to doubles (booleans as 0, 1)   *)
(* and strings.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Loss

Unit01 == [lo |-> "0", hi |-> "1"]
AtLeast(x) == [lo |-> x, hi |-> ""]
Free == [lo |-> "", hi |-> ""]
Num(range, def) == range @@ [k |-> "real", how |-> "reject", def |-> def]
Whole(range, def) == range @@ [k |-> "int", how |-> "reject", def |-> def]
Flag(def) == [k |-> "bool", how |-> "reject", def |-> def, lo |-> "0", hi |-> "1"]
Clamped(p) == [p EXCEPT !.how = "clamp"]

Numeric ==
  ("gamma" :> Num(Unit01, "0.95")) @@ ("p_explore" :> Num(Unit01, "0.9")) @@ ("alpha" :> Num(Unit01, "0.1"))
  @@ ("beta" :> Num(Unit01, "0.1")) @@ ("delta" :> Num(Unit01, "0.1")) @@ ("e0" :> Num(AtLeast("0"), "0.01"))
  @@ ("init_error" :> Num(AtLeast("0"), "0")) @@ ("init_fitness" :> Num(AtLeast("0"), "0.01")) @@ ("nu" :> Num(AtLeast("0"), "5"))
  @@ ("huber_delta" :> Num(AtLeast("0"), "1"))
  @@ ("omp_num_threads" :> [lo |-> "1", hi |-> "1000", k |-> "int", how |-> "reject", def |-> "8"])
  @@ ("random_state" :> Whole(Free, "-1")) @@ ("pop_init" :> Flag("1"))
  @@ ("max_trials" :> Whole(AtLeast("1"), "100000")) @@ ("perf_trials" :> Whole(AtLeast("1"), "1000")) @@ ("pop_size" :> Whole(AtLeast("1"), "2000"))
  @@ ("teletransportation" :> Whole(AtLeast("1"), "50")) @@ ("theta_del" :> Whole(AtLeast("0"), "20")) @@ ("m_probation" :> Whole(AtLeast("0"), "10000"))
  @@ ("theta_sub" :> Whole(AtLeast("0"), "100")) @@ ("set_subsumption" :> Flag("0")) @@ ("stateful" :> Flag("1")) @@ ("compaction" :> Flag("0"))
  @@ ("ea.select_size" :> Num(Unit01, "0.4")) @@ ("ea.theta_ea" :> Num(AtLeast("0"), "50")) @@ ("ea.lambda" :> Whole(AtLeast("2"), "2"))
  @@ ("ea.p_crossover" :> Num(Unit01, "0.8")) @@ ("ea.err_reduc" :> Num(Unit01, "1")) @@ ("ea.fit_reduc" :> Num(Unit01, "0.1"))
  @@ ("ea.subsumption" :> Flag("0")) @@ ("ea.pred_reset" :> Flag("0"))
  @@ ("cond.eta" :> Clamped(Num(Unit01, "0"))) @@ ("cond.min" :> Num(Free, "0")) @@ ("cond.max" :> Num(Free, "1"))
  @@ ("cond.spread_min" :> Clamped(Num(AtLeast("0"), "0.1"))) @@ ("cond.p_dontcare" :> Clamped(Num(Unit01, "0.5"))) @@ ("cond.bits" :> Clamped(Whole(AtLeast("1"), "1")))
  @@ ("dgp.max_k" :> Clamped(Whole(AtLeast("1"), "2"))) @@ ("dgp.max_t" :> Clamped(Whole(AtLeast("1"), "10"))) @@ ("dgp.n" :> Clamped(Whole(AtLeast("1"), "10")))
  @@ ("dgp.evolve_cycles" :> Flag("1"))
  @@ ("gp.min_constant" :> Num(Free, "0")) @@ ("gp.max_constant" :> Num(Free, "1")) @@ ("gp.n_constants" :> Clamped(Whole(AtLeast("1"), "100")))
  @@ ("gp.init_depth" :> Clamped(Whole(AtLeast("1"), "5"))) @@ ("gp.max_len" :> Clamped(Whole(AtLeast("1"), "10000")))
  @@ ("pred.eta" :> Clamped(Num(Unit01, "0.1"))) @@ ("pred.eta_min" :> Clamped(Num(Unit01, "0.00001"))) @@ ("pred.lambda" :> Num(Free, "1"))
  @@ ("pred.scale_factor" :> Num(Free, "1000")) @@ ("pred.x0" :> Num(Free, "1")) @@ ("pred.evolve_eta" :> Flag("1"))
Dims == ("x_dim" :> Whole(AtLeast("1"), "1")) @@ ("y_dim" :> Whole(AtLeast("1"), "1")) @@ ("n_actions" :> Whole(AtLeast("1"), "1"))
Numbers == Numeric @@ Dims
LossName == <<"mae", "mse", "rmse", "log", "binary_log", "onehot", "huber">>
Words ==
  ("loss_func" :> {LossName[i] : i \in 1..7}) @@ ("ea.select_type" :> {"roulette", "tournament"})
  @@ ("cond.type" :> {"dummy", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "neural", "tree_gp", "dgp", "ternary", "rule_dgp", "rule_neural", "rule_network"})
  @@ ("pred.type" :> {"constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic", "neural"})
  @@ ("act.type" :> {"integer", "neural"})
WordDef == ("loss_func" :> "mae") @@ ("ea.select_type" :> "roulette") @@ ("cond.type" :> "hyperrectangle_csr") @@ ("pred.type" :> "nlms_linear") @@ ("act.type" :> "integer")

D0(x) == FAdd(x, "0")
Legal(n, v) ==
  IF n \in DOMAIN Words THEN v \in Words[n]
  ELSE IF n \in DOMAIN Numbers THEN (Numbers[n].lo = "" \/ FLe(Numbers[n].lo, v)) /\ (Numbers[n].hi = "" \/ FLe(v, Numbers[n].hi))
  ELSE TRUE
Nearest(n, v) == IF Numbers[n].lo # "" /\ FLt(v, Numbers[n].lo) THEN D0(Numbers[n].lo) ELSE D0(Numbers[n].hi)
(* the value in effect after setting n, in effect s, to v                     *)
Outcome(n, s, v) == IF Legal(n, v) THEN v ELSE IF n \in DOMAIN Numbers /\ Numbers[n].how = "clamp" THEN Nearest(n, v) ELSE s
Refused(n, v) == ~Legal(n, v) /\ (n \in DOMAIN Numbers => Numbers[n].how = "reject")

(* names of the entries of a description                                      *)
CondArg(t, f) ==
  CASE t \in {"dgp", "rule_dgp"} -> "dgp." \o f
    [] t = "tree_gp" -> "gp." \o f
    [] OTHER -> "cond." \o f
Flat(j) ==
  LET top == {<<<<f>>, f>> : f \in DOMAIN j \ {"version", "ea", "condition", "prediction", "action", "empty"}}
      ea == IF "ea" \in DOMAIN j THEN {<<<<"ea", f>>, "ea." \o f>> : f \in DOMAIN j.ea \ {"empty"}} ELSE {}
      sub(g, p, name(_)) == IF g \notin DOMAIN j THEN {}
                   ELSE {<<<<g, "type">>, p \o ".type">>} \cup
                        (IF "args" \in DOMAIN j[g] /\ j[g].type \notin {"neural", "rule_neural", "rule_network"}
                         THEN {<<<<g, "args", f>>, name(f)>> : f \in DOMAIN j[g].args \ {"empty"}} ELSE {})
      cond(f) == CondArg(j.condition.type, f)
      pred(f) == "pred." \o f
      act(f) == "act." \o f
  IN top \cup ea \cup sub("condition", "cond", cond) \cup sub("prediction", "pred", pred) \cup sub("action", "act", act)
RECURSIVE Dig(_, _)
Dig(j, path) == IF path = <<>> THEN j ELSE Dig(j[Head(path)], Tail(path))
(* a description as a function from names to values                           *)
Named(j) == LET fl == Flat(j) IN [n \in {e[2] : e \in fl} |-> Dig(j, (CHOOSE e \in fl : e[2] = n)[1])]

(* networks: the layers given, the layers in effect, the layers reported        *)
NetTypes == {"neural", "rule_neural", "rule_network"}
LayerNums == {"n_init", "n_max", "max_neuron_grow", "eta", "eta_min", "momentum", "decay", "probability", "scale", "evolve_weights", "evolve_neurons",
              "evolve_functions", "evolve_eta", "evolve_connect", "sgd_weights", "size", "stride", "pad"}
Weighted == {"connected", "recurrent", "lstm", "convolutional"}
Imaged == {"convolutional", "maxpool", "upsample"}
Sizes == {"size", "stride", "pad"}
Zero == D0("0")
GivenNum(g, f) == IF f \in DOMAIN g THEN D0(g[f]) ELSE Zero
LayerInEffect(g) ==
  [type |-> IF "type" \in DOMAIN g THEN g.type ELSE "connected",
   activation |-> IF "activation" \in DOMAIN g THEN g.activation ELSE "logistic",
   recurrent_activation |-> IF "recurrent_activation" \in DOMAIN g THEN g.recurrent_activation ELSE "logistic"]
  @@ [f \in LayerNums |->
        CASE f \in Sizes -> (IF g.type \in Imaged THEN GivenNum(g, f) ELSE Zero)
          [] f = "n_init" -> (IF g.type \in Weighted THEN GivenNum(g, f) ELSE Zero)
          [] f = "n_max" -> (IF g.type \in Weighted THEN FMax(GivenNum(g, "n_max"), GivenNum(g, "n_init")) ELSE Zero)
          [] OTHER -> GivenNum(g, f)]
LayerKeys == LayerNums \cup {"type", "activation", "recurrent_activation", "height", "width", "channels", "n_inputs"}
ActNames == {"logistic", "relu", "tanh", "linear", "gaussian", "sin", "cos", "softplus", "leaky", "selu", "loggy"}
LayerLegal(g) ==
  /\ DOMAIN g \subseteq LayerKeys
  /\ ("type" \in DOMAIN g => g.type \in Weighted \cup Imaged \cup {"dropout", "noise", "softmax", "avgpool"})
  /\ \A f \in {"activation", "recurrent_activation"} \cap DOMAIN g : g[f] \in ActNames
  /\ ~(FEq(GivenNum(g, "evolve_neurons"), "1") /\ FLt(GivenNum(g, "max_neuron_grow"), "1"))
NetsLegal(j) == \A p \in {"condition", "prediction", "action"} \cap DOMAIN j :
  ("args" \in DOMAIN j[p] /\ j[p].type \in NetTypes) => \A k \in DOMAIN j[p].args : LayerLegal(j[p].args[k])
LayerAt(a, i) == a["layer_" \o ToString(i - 1)]
LayersGiven(a) == [i \in 1..Cardinality(DOMAIN a) |-> LayerInEffect(LayerAt(a, i))]
NetIn(j, g, n) == IF g \in DOMAIN j /\ "args" \in DOMAIN j[g] /\ j[g].type \in NetTypes THEN n :> LayersGiven(j[g].args) ELSE <<>>
NetsGiven(j) == NetIn(j, "condition", "net.cond") @@ NetIn(j, "prediction", "net.pred") @@ NetIn(j, "action", "net.act")
(* what a description of layer y has to say                                     *)
LayerSays(y) ==
  LET t == y.type on(f) == FEq(y[f], "1") IN
  {"type"} \cup (IF t \in Weighted THEN {"activation"} ELSE {}) \cup (IF t = "lstm" THEN {"recurrent_activation"} ELSE {})
  \cup (IF t \in Imaged THEN {f \in Sizes : FLt("0", y[f])} ELSE {})
  \cup (IF t \in {"noise", "dropout"} THEN {"probability"} ELSE {}) \cup (IF t \in {"noise", "softmax"} THEN {"scale"} ELSE {})
  \cup (IF t \notin Weighted THEN {}
        ELSE {"n_init", "evolve_weights", "evolve_functions", "evolve_connect", "evolve_neurons", "sgd_weights"}
             \cup (IF on("evolve_neurons") THEN {"n_max", "max_neuron_grow"} ELSE {})
             \cup (IF on("sgd_weights") THEN {"eta", "evolve_eta", "momentum", "decay"} \cup (IF on("evolve_eta") THEN {"eta_min"} ELSE {}) ELSE {}))
LayerTold(y, r) == \A f \in LayerSays(y) : f \in DOMAIN r /\ Alike(r[f], y[f], "4.5e-16")
NetTold(net, a) == /\ DOMAIN a = {"layer_" \o ToString(i - 1) : i \in 1..Len(net)}
                   /\ \A i \in 1..Len(net) : LayerTold(net[i], LayerAt(a, i))
NetAlike(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : LayerSays(p[i]) = LayerSays(q[i]) /\ LayerTold(p[i], q[i])
NetTypeOf == ("net.cond" :> "cond.type") @@ ("net.pred" :> "pred.type") @@ ("net.act" :> "act.type")
NetPart == ("net.cond" :> "condition") @@ ("net.pred" :> "prediction") @@ ("net.act" :> "action")
(* the networks used when none is given                                         *)
Unit10(n, m) == [type |-> "connected", n_init |-> n, n_max |-> m, max_neuron_grow |-> "1", evolve_weights |-> "1", evolve_connect |-> "1"]
Hidden(n) == Unit10(n, "100") @@ [evolve_neurons |-> "1"]
Taught == [sgd_weights |-> "1", evolve_eta |-> "1", eta |-> "0.01", momentum |-> "0.9"]
DefaultNets(yd, na) ==
  ("net.cond" :> <<Hidden("10"), Unit10("10", "10") @@ [activation |-> "linear"]>>)
  @@ ("net.pred" :> <<Hidden("10") @@ Taught, Unit10(yd, yd) @@ Taught>>)
  @@ ("net.act" :> <<Hidden("1"), Unit10(na, na) @@ [activation |-> "linear"], [type |-> "softmax", scale |-> "1"]>>)
IsDefaultNets(s) ==
  \A n \in DOMAIN NetPart : LET d == DefaultNets(s["y_dim"], s["n_actions"])[n] IN
     Len(d) = Len(s[n]) /\ \A i \in 1..Len(d) : LayerTold(LayerInEffect(d[i]), s[n][i]) /\ s[n][i].type = d[i].type

(* the loss in use, by what it computes                                       *)
ProbeP == <<"0.6", "0.3">>
ProbeT == <<"0", "1">>
LossInUse(S) == [loss |-> (CHOOSE i \in 1..7 : LossName[i] = S["loss_func"]) - 1, huber |-> S["huber_delta"]]
=============================================================================
