------------------------------- MODULE Persist -------------------------------
(***************************************************************************)
(* Models as values: what saving, loading, storing, retrieving, exporting   *)
(* and inserting do to them.                                                 *)
(*                                                                          *)
(* The content of a model is                                                *)
(*  [t, err, ms, as, mf  clock and running statistics,                       *)
(*   par, pj             parameters in effect / parameters as reported,      *)
(*   n, z, R             micro and macro count, the rules in order,          *)
(*   pas                 size of the prediction array,                       *)
(*   sn, S               number and list of stored rules]                    *)
(***************************************************************************)
EXTENDS XCSF, TLC

(* everything but the stored population *)
Model(c) == [f \in DOMAIN c \ {"S", "sn"} |-> c[f]]
Stored(c) == c.S
SameBag(p, q) ==
  /\ Len(p) = Len(q)
  /\ \A x \in Rng(p) : Cardinality({i \in 1..Len(p) : p[i] = x}) = Cardinality({i \in 1..Len(q) : q[i] = x})
Counted(c) ==
  /\ c.z = Len(c.R)
  /\ c.n = FoldSeq(LAMBDA r, a : a + r.n, 0, c.R)
  /\ c.sn = Len(c.S)

(***************************************************************************)
(* Copies: rules keep everything but the working memory of their learners   *)
(* (gain matrix, momentum, recurrent state)                                  *)
(***************************************************************************)
Working == {"dW", "dB", "rs", "rp", "ro", "cell", "hh", "cc", "sl", "il", "ol", "uf", "ui", "ug", "uo", "wf", "wi", "wg", "wo"}
Subs == {"sl", "il", "ol", "uf", "ui", "ug", "uo", "wf", "wi", "wg", "wo"}
RECURSIVE LayerCopy(_)
LayerCopy(y) ==
  LET b == [f \in DOMAIN y \ Working |-> y[f]] IN
  <<b, [f \in DOMAIN y \cap Subs |-> LayerCopy(y[f])]>>
NetCopy(net) == [nl |-> net.nl, ni |-> net.ni, no |-> net.no, L |-> [i \in 1..Len(net.L) |-> LayerCopy(net.L[i])]]
PartCopy(p) ==
  IF "N" \in DOMAIN p THEN <<p.k, NetCopy(p.N)>>
  ELSE IF "M" \in DOMAIN p THEN [f \in DOMAIN p \ {"M"} |-> p[f]]
  ELSE p
RuleCopy(r) == [f \in DOMAIN r |-> IF f \in {"c", "w", "ac"} THEN PartCopy(r[f]) ELSE r[f]]
Copies(q) == [i \in 1..Len(q) |-> RuleCopy(q[i])]

(***************************************************************************)
(* Description of a population                                              *)
(***************************************************************************)
Ints(js, q) == Len(js) = Len(q) /\ \A i \in 1..Len(q) : FEq(js[i], F(q[i]))
(* numbers are written with at least 15 significant digits, 17 if needed to   *)
(* stay within one unit in the last place                                     *)
TextTol == "4.5e-16"
TEq(a, b) == Alike(a, b, TextTol)
Dbls(js, q) == TEq(js, q)
NodeName == <<"Fuzzy NOT", "Fuzzy AND", "Fuzzy OR">>
GraphText(j, g) ==
  /\ FEq(j.n, F(g.n)) /\ FEq(j.t, F(g.t)) /\ FEq(j.n_inputs, F(g.ni))
  /\ Dbls(j.initial_state, g.i0) /\ Dbls(j.current_state, g.st)
  /\ j.functions = [i \in 1..g.n |-> NodeName[g.fn[i] + 1]]
  /\ Ints(j.connectivity, g.cn) /\ Dbls(j.mutation, g.mu)
(* infix rendering of a tree, with parentheses                               *)
RECURSIVE TreeText(_, _, _)
TreeText(par, t, k) ==
  IF t[k] >= 4 + par.gpnc THEN <<"feature_" \o ToString(t[k] - 4 - par.gpnc)>>
  ELSE IF t[k] >= 4 THEN <<par.gpc[t[k] - 3]>>
  ELSE LET e == SubEnd(t, k + 1) IN
       <<"(">> \o TreeText(par, t, k + 1) \o <<(<<"+", "-", "*", "/">>)[t[k] + 1]>> \o TreeText(par, t, e) \o <<")">>
LayerName == <<"connected", "dropout", "noise", "softmax", "recurrent", "lstm", "maxpool", "convolutional", "avgpool", "upsample">>
LayerText(j, y) ==
  /\ j.type = LayerName[y.ty + 1]
  /\ ("n_inputs" \in DOMAIN j => FEq(j.n_inputs, F(y.ni)))
  /\ ("n_outputs" \in DOMAIN j => FEq(j.n_outputs, F(y.no)))
  /\ (y.ty \in {0, 7} =>
        /\ TEq(j.eta, y.eta) /\ Dbls(j.mutation, y.mu)
        /\ FEq(j.weights.n_weights, F(y.nw)) /\ FEq(j.weights.n_biases, F(y.nb)) /\ FEq(j.weights.n_active, F(y.na)))
NetText(j, net) ==
  /\ DOMAIN j = {"layer_" \o ToString(i - 1) : i \in 1..net.nl}
  /\ \A i \in 1..net.nl : LayerText(j["layer_" \o ToString(i - 1)], net.L[i])
CondText(par, j, c) ==
  CASE c.k = "dum" -> j.type = "dummy"
    [] c.k = "csr" -> j.type = "hyperrectangle_csr" /\ Dbls(j.center, c.a) /\ Dbls(j.spread, c.b) /\ Dbls(j.mutation, c.mu)
    [] c.k = "ubr" -> j.type = "hyperrectangle_ubr" /\ Dbls(j.bound1, c.a) /\ Dbls(j.bound2, c.b) /\ Dbls(j.mutation, c.mu)
    [] c.k = "ell" -> j.type = "hyperellipsoid" /\ Dbls(j.center, c.a) /\ Dbls(j.spread, c.b) /\ Dbls(j.mutation, c.mu)
    [] c.k = "ter" -> j.type = "ternary" /\ Chars(j.string) = c.q /\ Dbls(j.mutation, c.mu)
    [] c.k = "gp" -> j.type = "tree_gp" /\ TEq(j.tree.array, TreeText(par, c.tree, 1)) /\ Dbls(j.tree.mutation, c.mu)
    [] c.k = "dgp" -> j.type = "dgp" /\ GraphText(j.graph, c.G)
    [] c.k = "rdgp" -> j.type = "rule_dgp" /\ GraphText(j.graph, c.G)
    [] c.k = "nn" -> j.type = "neural" /\ NetText(j.network, c.N)
    [] c.k = "rnn" -> j.type = "rule_neural" /\ NetText(j.network, c.N)
    [] OTHER -> TRUE
PredName == <<"constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic", "neural">>
PredText(par, j, r) ==
  /\ j.type = PredName[par.ptype + 1]
  /\ CASE r.w.k = "con" -> Dbls(j.prediction, r.p)
       [] r.w.k = "nlms" -> Dbls(j.weights, r.w.w) /\ TEq(j.eta, r.w.eta) /\ Dbls(j.mutation, r.w.mu)
       [] r.w.k = "rls" -> Dbls(j.weights, r.w.w)
       [] r.w.k = "nn" -> NetText(j.network, r.w.N)
       [] OTHER -> TRUE
ActText(par, j, r) ==
  CASE r.ac.k = "int" -> j.type = "integer" /\ FEq(j.action, F(r.ac.v)) /\ Dbls(j.mutation, r.ac.mu)
    [] r.ac.k = "nn" -> j.type = "neural" /\ NetText(j.network, r.ac.N)
    [] OTHER -> TRUE
RuleText(par, j, r) ==
  /\ TEq(j.error, r.e) /\ TEq(j.fitness, r.f) /\ TEq(j.set_size, r.z)
  /\ FClose(j.accuracy, Accuracy(par, r.e))
  /\ FEq(j.numerosity, F(r.n)) /\ FEq(j.experience, F(r.x)) /\ FEq(j.time, F(r.t))
  /\ FEq(j.samples_seen, F(r.g)) /\ FEq(j.samples_matched, F(r.k))
  /\ j.current_match = r.m /\ FEq(j.current_action, F(r.a)) /\ Dbls(j.current_prediction, r.p)
  /\ CondText(par, j.condition, r.c)
  /\ PredText(par, j.prediction, r)
  /\ (par.na > 1 => ActText(par, j.action, r))
PopulationText(par, J, R) ==
  /\ "classifiers" \in DOMAIN J
  /\ Len(J.classifiers) = Len(R)
  /\ \A i \in 1..Len(R) : RuleText(par, J.classifiers[i], R[i])

(***************************************************************************)
(* Insertion of exported rules                                              *)
(***************************************************************************)
(* what the text format carries: no gain matrix, and no action genes when     *)
(* there is only one action                                                   *)
Carried(par, r) ==
  [f \in DOMAIN r \ (IF par.na = 1 THEN {"ac"} ELSE {}) |->
     IF f = "w" /\ "M" \in DOMAIN r.w THEN [g \in DOMAIN r.w \ {"M"} |-> r.w[g]] ELSE r[f]]
(* evolution limits of a graph come from the receiving model                  *)
CarriedAll(par, q) == [i \in 1..Len(q) |-> Carried(par, q[i])]
NoNum(r) == [f \in DOMAIN r \ {"n"} |-> r[f]]
Times(x, q) == Cardinality({i \in 1..Len(q) : TEq(x, q[i])})
BagLe(p, q) == \A x \in Rng(p) : Times(x, p) <= Times(x, q)
BagAlike(p, q) == Len(p) = Len(q) /\ \A x \in Rng(p) : Times(x, p) = Times(x, q)
Num(q) == FoldSeq(LAMBDA r, a : a + r.n, 0, q)
Inserted2(par, old, new, exp) ==
  LET all == CarriedAll(par, exp) \o CarriedAll(par, old)
      got == CarriedAll(par, new)
  IN IF Num(old) + Num(exp) <= par.pop
     THEN BagAlike(got, all)
     ELSE /\ Num(new) = par.pop
          /\ BagLe([i \in 1..Len(got) |-> NoNum(got[i])], [i \in 1..Len(all) |-> NoNum(all[i])])
          /\ \A i \in 1..Len(got) : \E j \in 1..Len(all) : TEq(NoNum(got[i]), NoNum(all[j])) /\ got[i].n <= all[j].n /\ got[i].n >= 1

Constructed(par, new, exp) ==
  LET all == CarriedAll(par, exp)
      got == CarriedAll(par, new)
  IN /\ Num(exp) <= par.pop =>
          /\ BagLe(all, got)
          /\ Num(new) = (IF par.popinit THEN par.pop ELSE Num(exp))
          /\ \A i \in 1..Len(got) : Times(got[i], all) = 0 => got[i].n = 1 /\ got[i].x = 0
     /\ Num(exp) > par.pop => Num(new) = par.pop

(* predictions depend on more than the genotype: graph states kept between    *)
(* inputs, recurrent layers                                                   *)
HasLayer(net, S) == \E i \in 1..Len(net.L) : net.L[i].ty \in S
Volatile(c) ==
  \/ (c.par.ctype \in {6, 11} /\ c.par.stateful)
  \/ \E i \in 1..Len(c.R) : \E f \in {"c", "w", "ac"} : "N" \in DOMAIN c.R[i][f] /\ HasLayer(c.R[i][f].N, {4, 5})
(* layers that draw random numbers inside the parallel loops                  *)
Noisy(c) == \E i \in 1..Len(c.R) : \E f \in {"c", "w", "ac"} : "N" \in DOMAIN c.R[i][f] /\ HasLayer(c.R[i][f].N, {1, 2})
=============================================================================
