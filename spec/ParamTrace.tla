------------------------------ MODULE ParamTrace -----------------------------
(* Checks recorded histories of parameter settings (harness/pmdrive.c).        *)
EXTENDS Param, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Active
VARIABLES l, S
vars == <<l, S>>
View == l
ChkIn(gs, name, cond) == IF gs \cap Active = {} THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"FAIL", gs \cap Active, name, "event", l, Trace[l].e>>) /\ FALSE
Chk(name, cond) == ChkIn({"par"}, name, cond)
ev == Trace[l]
Derived == {"probe", "in", "const", "nin"}
Nets == DOMAIN NetPart
Pars(s) == [n \in DOMAIN s \ Derived |-> s[n]]
Eq(a, b) == Alike(a, b, "0")
Same(a, b, except) ==
  LET bad == {n \in DOMAIN a \ except : ~Eq(a[n], b[n])} IN Chk(<<"changed without being set", bad>>, bad = {})
(* what is reported is in effect, and everything that matters is reported      *)
Unreported(s) ==
  Derived \cup Nets \cup {"cond.eta", "cond.min", "cond.max", "cond.spread_min", "cond.p_dontcare", "cond.bits", "dgp.max_k", "dgp.max_t", "dgp.n", "dgp.evolve_cycles",
   "gp.min_constant", "gp.max_constant", "gp.n_constants", "gp.init_depth", "gp.max_len", "pred.eta", "pred.eta_min", "pred.lambda", "pred.scale_factor", "pred.x0", "pred.evolve_eta"}
  \cup (IF s["loss_func"] = "huber" THEN {} ELSE {"huber_delta"})
  \cup (IF FLt("1", s["n_actions"]) THEN {} ELSE {"gamma", "teletransportation", "p_explore"})
  \cup (IF FLt("1", s["n_actions"]) /\ s["cond.type"] \notin {"rule_dgp", "rule_neural", "rule_network"} THEN {} ELSE {"act.type"})
  \cup (IF s["ea.select_type"] = "tournament" THEN {} ELSE {"ea.select_size"})
OfCond(t) ==
  CASE t \in {"hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid"} -> {"cond.min", "cond.max", "cond.spread_min", "cond.eta"}
    [] t = "ternary" -> {"cond.p_dontcare", "cond.bits"}
    [] t \in {"dgp", "rule_dgp"} -> {"dgp.max_k", "dgp.max_t", "dgp.n", "dgp.evolve_cycles"}
    [] t = "tree_gp" -> {"gp.min_constant", "gp.max_constant", "gp.n_constants", "gp.init_depth", "gp.max_len"}
    [] OTHER -> {}
OfPred(s) ==
  LET t == s["pred.type"] IN
  CASE t \in {"nlms_linear", "nlms_quadratic"} -> {"pred.x0", "pred.eta", "pred.evolve_eta"} \cup (IF FEq(s["pred.evolve_eta"], "1") THEN {"pred.eta_min"} ELSE {})
    [] t \in {"rls_linear", "rls_quadratic"} -> {"pred.x0", "pred.lambda", "pred.scale_factor"}
    [] OTHER -> {}
Required(s) == (DOMAIN s \ Unreported(s)) \cup OfCond(s["cond.type"]) \cup OfPred(s)
Described(s) == {n \in Nets : s[NetTypeOf[n]] \in NetTypes /\ (n = "net.act" => FLt("1", s["n_actions"]) /\ s["cond.type"] \notin {"rule_dgp", "rule_neural", "rule_network"})}
Reported(s, j) ==
  LET r == Named(j)
      wrong == {n \in DOMAIN r : n \notin DOMAIN s \/ ~Alike(r[n], s[n], "4.5e-16")}
      missing == Required(s) \ DOMAIN r IN
  /\ Chk(<<"the description is what is in effect", wrong, missing>>, wrong = {} /\ missing = {})
  /\ LET badnets == {n \in Described(s) : ~(/\ NetPart[n] \in DOMAIN j /\ "args" \in DOMAIN j[NetPart[n]] /\ NetTold(s[n], j[NetPart[n]].args))} IN
     Chk(<<"the network described is the one in effect", badnets>>, badnets = {})
LossOk(s) == ChkIn({"par", "loss"}, "the loss in use is the configured one", FNear(s.probe, LossOf(LossInUse(s), ProbeP, ProbeT), "1e-12"))
Good(s, j) == Reported(s, j) /\ LossOk(s) /\ S' = s
(* setting several parameters                                                  *)
After(s, kv) == [n \in DOMAIN s |-> IF n \in DOMAIN kv THEN Outcome(n, s[n], kv[n]) ELSE s[n]]
Takes(s, kv, t) ==
  LET a == After(s, kv) bad == {n \in DOMAIN s \ Derived : ~Eq(a[n], t[n])} IN
  /\ Chk(<<"parameters take the given values and no others change", bad>>, bad = {})
  /\ ChkIn({"loss"}, "the loss and its parameter are the ones given", bad \cap {"loss_func", "huber_delta"} = {})
InputsOk(s) == LET d == FInt(s["x_dim"]) IN Chk("rules see all inputs", s.in = <<d, d>> /\ s.nin = <<d, d, d>>)
ConstKept(s, t) ==
  Chk("tree constants are kept unless their parameters change",
      (\A n \in {"gp.min_constant", "gp.max_constant", "gp.n_constants"} : Eq(s[n], t[n])) => Eq(s.const, t.const))

TInit ==
  /\ ev.e = "Init"
  /\ LET given == ("x_dim" :> ev.dims[1]) @@ ("y_dim" :> ev.dims[2]) @@ ("n_actions" :> ev.dims[3])
         bad == {n \in DOMAIN Numbers : ~Eq(ev.S[n], IF n \in DOMAIN given THEN given[n] ELSE D0(Numbers[n].def))} \cup {n \in DOMAIN Words : ev.S[n] # WordDef[n]} IN
     Chk(<<"defaults", bad>>, bad = {} /\ ev.S["population_file"] = "")
  /\ Chk("default networks", IsDefaultNets(ev.S))
  /\ InputsOk(ev.S) /\ Good(ev.S, ev.E)
TSet ==
  /\ ev.e = "set"
  /\ Takes(S, ev.name :> ev.v, ev.S)
  /\ Chk("an illegal value is refused, a legal one is not", (ev.r = "err") = Refused(ev.name, ev.v))
  /\ (ev.name \in {"gp.n_constants"} \/ ConstKept(S, ev.S))
  /\ Good(ev.S, ev.E)
TJson ==
  /\ ev.e \in {"json", "conf"}
  /\ Takes(S, Named(ev.kv) @@ NetsGiven(ev.kv), ev.S) /\ InputsOk(ev.S) /\ ConstKept(S, ev.S) /\ Good(ev.S, ev.E)
TBad ==
  /\ ev.e = "bad"
  /\ Chk("asking does not crash", ev.r # "crashed")
  /\ Chk("an illegal value never takes effect",
       ev.r = "ran" => LET kv == Named(ev.kv) IN
                       /\ DOMAIN kv \subseteq DOMAIN S /\ NetsLegal(ev.kv)
                       /\ \A n \in DOMAIN kv : Eq(ev.S2[n], Outcome(n, S[n], kv[n])) /\ ~Refused(n, kv[n]))
  /\ Same(Pars(S), Pars(ev.S), {}) /\ Good(ev.S, ev.E)
TRound ==
  /\ ev.e = "round"
  /\ Same(S, ev.S, {})
  /\ LET bad == {n \in Required(S) : ~Alike(S[n], ev.S2[n], "4.5e-16")} IN
     Chk(<<"importing a description reproduces it", bad>>, bad = {} /\ \A n \in Described(S) : NetAlike(S[n], ev.S2[n]))
  /\ InputsOk(ev.S2) /\ LossOk(ev.S2) /\ Good(ev.S, ev.E)
Released == "mem" \notin Active \/ ev.leak = 0 \/ (PrintT(<<"FAIL", {"mem"}, "everything is released", "event", l, ev.e>>) /\ FALSE)
TFile ==
  /\ ev.e = "file"
  /\ Same(S, ev.S, {})
  /\ ChkIn({"par", "file"}, "a file restores every parameter", ev.same /\ \A n \in DOMAIN S : Eq(S[n], ev.S2[n]))
  /\ LossOk(ev.S2) /\ Good(ev.S, ev.E)
Init == l = 1 /\ S = <<>>
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE ev.e = "Init" -> TInit [] ev.e = "set" -> TSet [] ev.e \in {"json", "conf"} -> TJson [] ev.e = "bad" -> TBad [] ev.e = "round" -> TRound
       [] ev.e = "file" -> TFile [] ev.e = "End" -> Released /\ UNCHANGED S
       [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
