----------------------------- MODULE XCSFTrace -----------------------------
(***************************************************************************)
(* Checks a recorded execution of the real library against the             *)
(* specification.  The trace is a sequence of events; each event names an   *)
(* operation, what it was given, and the system state it left.  The         *)
(* behaviour is accepted when every event is a legal step from the state    *)
(* the previous one left: the operation may occur here (Protocol), and the  *)
(* relation XCSF.tla gives for it holds between the two states.             *)
(*                                                                         *)
(* Clauses belong to groups; Active selects the groups a run decides (one   *)
(* run per property).  Clauses of inactive groups are not evaluated, and    *)
(* the recorded state is adopted, so one broken property does not mask or   *)
(* pollute the verdict on another.                                          *)
(***************************************************************************)
EXTENDS XCSF, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Active

VARIABLES l, par, s, c
vars == <<l, par, s, c>>

Chk(grp, name, cond) ==
  IF grp \in Active
  THEN IF cond THEN TRUE ELSE PrintT(<<"FAIL", grp, name, "event", l, Trace[l].e>>) /\ FALSE
  ELSE TRUE
ChkAny(grps, name, cond) ==
  IF grps \cap Active # {}
  THEN IF cond THEN TRUE ELSE PrintT(<<"FAIL", grps \cap Active, name, "event", l, Trace[l].e>>) /\ FALSE
  ELSE TRUE

NoSet == [n |-> 0, z |-> 0, i |-> <<>>]
(* Control state: op in progress; pc where in its protocol; x current input; *)
(* k trials done; M/A/V match, action and previous action set; pa; err the   *)
(* expected running error, nerr the value it takes when the trial ends;      *)
(* losses accumulates what the call should return; dead rules discarded so   *)
(* far in the trial                                                          *)
Idle(err) == [op |-> "idle", pc |-> "idle", call |-> [op |-> "none"], x |-> <<>>, k |-> 0,
              M |-> NoSet, A |-> NoSet, V |-> NoSet, S |-> NoSet, pa |-> <<>>, nr |-> <<>>, a |-> -1, ex |-> TRUE,
              err |-> err, nerr |-> err, sum |-> "0", outs |-> <<>>, dead |-> {},
              r |-> "0", pr |-> "0", pp |-> "0", px |-> <<>>, done |-> FALSE, maxp |-> "1",
              steps |-> 0, perf |-> "0", rw |-> "0", multi |-> TRUE, test |-> FALSE, vl |-> FALSE]

NewDead(D) == LET ids == Dead(D) \ c.dead IN [i \in ids |-> D[i]]
Toward1(old, new) == FAdd(old, FMul(FSub(new, old), par.beta))
Supervised(op) == op \in {"fit", "predict", "score"}
Rows(mat, x) == {k \in 1..Len(mat) : mat[k] = x}

(***************************************************************************)
(* Protocol: which events may follow, and with which inputs                *)
(***************************************************************************)
(* expected input of the next match                                         *)
FitTest == c.op = "fit" /\ c.test
CallX == IF FitTest THEN c.call.tx ELSE c.call.x
CallY == IF FitTest THEN c.call.ty ELSE c.call.y
ExpectRow(k) == ((k + c.call.start) % Len(CallX)) + 1
(* rows the current input may have come from                                *)
CurRowsOf(cc) ==
  LET X == IF cc.op = "fit" /\ cc.test THEN cc.call.tx ELSE cc.call.x IN
  CASE cc.op = "fit" -> IF cc.call.shuffle THEN Rows(X, cc.x) ELSE {ExpectRow(cc.k)} \cap Rows(X, cc.x)
    [] cc.op = "predict" -> {cc.k + 1}
    [] cc.op = "score" -> IF cc.call.N = 0 \/ cc.call.N > Len(X) THEN {cc.k + 1} ELSE Rows(X, cc.x)
CurRows == CurRowsOf(c)
(* the trial's obligations are complete                                     *)
StepComplete ==
  IF c.op = "rlfit" THEN c.pc = "adone"
  ELSE \/ c.pc = "adone"
       \/ (~c.ex /\ c.pc = "aupd")
       \/ (~c.done /\ (c.pc = "vdone" \/ (~c.ex /\ c.pc = "vupd") \/ (c.pc = "act" /\ c.V.i = <<>>)))
(* prediction error of a step: on the previous one (if any of its action set  *)
(* is left) against the discounted prediction, and at the end on the reward   *)
StepErrorIn(k, a, r) ==
  FAdd(IF k.vl
       THEN FDiv(LossOf(par, <<k.pp>>, <<FAdd(k.pr, FMul(par.gamma, k.pa[a + 1]))>>), k.maxp) ELSE "0",
       IF k.done THEN FDiv(LossOf(par, <<k.pa[a + 1]>>, <<r>>), k.maxp) ELSE "0")
StepError(a, r) == StepErrorIn(c, a, r)

MatchExpected(ev) ==
  CASE c.op = "fit" ->
         /\ c.pc \in {"start", "trial"} /\ c.k < c.call.trials
         /\ ev.cover /\ ev.ex = ~c.test
         /\ IF c.call.shuffle THEN Rows(CallX, ev.x) # {} ELSE ev.x = CallX[ExpectRow(c.k)]
    [] c.op = "predict" ->
         /\ c.pc \in {"start", "trial"} /\ c.k < Len(c.call.x)
         /\ ev.cover = (c.call.cover = <<>>) /\ ~ev.ex
         /\ ev.x = c.call.x[c.k + 1]
    [] c.op = "score" ->
         /\ c.pc \in {"start", "trial"}
         /\ ev.cover = (c.call.cover = <<>>) /\ ~ev.ex
         /\ IF c.call.N = 0 \/ c.call.N > Len(c.call.x)
            THEN c.k < Len(c.call.x) /\ ev.x = c.call.x[c.k + 1]
            ELSE c.k < c.call.N /\ Rows(c.call.x, ev.x) # {}
    [] c.op = "rltrial" -> c.pc \in {"start", "trial"} /\ ev.cover /\ ev.ex = c.call.explore /\ ~c.done
    [] c.op = "rlexp" -> (c.pc = "reset" \/ StepComplete) /\ ev.cover /\ ev.ex = c.ex /\ ~c.done /\ c.steps < par.tele
    [] c.op = "rlfit" -> c.pc = "start" /\ ev.cover /\ ev.x = c.call.x
    [] c.op = "actstat" -> c.pc = "start" /\ ev.cover
    [] OTHER -> FALSE

(* loss of the current supervised prediction: the row is the one the input   *)
(* came from (inputs are distinct when rows are drawn at random)             *)
LossIn(cc, pa) == IF CurRowsOf(cc) = {} THEN "nan"
                  ELSE LossOf(par, pa, (IF cc.op = "fit" /\ cc.test THEN cc.call.ty ELSE cc.call.y)[CHOOSE k \in CurRowsOf(cc) : TRUE])
LastPerf == IF c.multi THEN F(c.steps) ELSE IF FLt("0", c.r) THEN "1" ELSE "0"
PAExpected(ev) ==
  /\ c.pc = "match" /\ ev.x = c.x /\ ev.M = c.M
  /\ ev.size = par.na * par.yd
DecideExpected(ev, rand) ==
  /\ c.op \in {"rltrial", "rlexp", "actstat"} /\ c.pc = "pa"
  /\ (rand => c.ex /\ FLt("0", par.pexp))
  /\ (~rand => ~c.ex \/ FLt(par.pexp, "1"))
UpdateExpected(ev) ==
  CASE c.op = "fit" -> c.pc = "pa" /\ ~c.test /\ ev.w = "m" /\ ev.x = c.x /\ ev.S = c.M
                       /\ \E k \in CurRows : ev.y = c.call.y[k]
    [] c.op \in {"rltrial", "rlexp"} ->
         IF c.pc = "act" /\ c.V.i # <<>>
         THEN ev.w = "v" /\ ev.x = c.px
         ELSE c.done /\ c.pc \in {"act", "vdone"} \cup (IF c.ex THEN {} ELSE {"vupd"}) /\ ev.w = "a" /\ ev.x = c.x
    [] c.op = "rlfit" -> c.pc = "act" /\ ev.w = "a" /\ ev.x = c.x
    [] OTHER -> FALSE
(* members still alive, in order                                            *)
StillAlive(q) == SelectSeq(q, LAMBDA i : i \in Live(s))
UpdateSet(ev) ==
  CASE ev.w = "v" -> ev.S.i = StillAlive(c.V.i)
    [] ev.w = "a" -> ev.S.i = StillAlive(c.A.i)
    [] OTHER -> ev.S.i = c.M.i
UpdateTarget(ev) ==
  CASE ev.w = "v" -> Len(ev.y) >= 1 /\ FClose(ev.y[1], FAdd(c.pr, FMul(par.gamma, BestValue(par, c.pa))))
    [] ev.w = "a" -> ev.y[1] = c.r
    [] OTHER -> TRUE
EAExpected(ev) ==
  CASE c.op = "fit" -> c.pc = "upd" /\ ev.w = "m"
    [] c.op \in {"rltrial", "rlexp", "rlfit"} ->
         c.ex /\ ((c.pc = "vupd" /\ ev.w = "v") \/ (c.pc = "aupd" /\ ev.w = "a"))
    [] OTHER -> FALSE
ProtoGroups == IF Supervised(c.op) THEN {"fit", "pure"} ELSE {"rl"}

(***************************************************************************)
(* Event clauses                                                           *)
(***************************************************************************)
OkState(st) ==
  /\ Chk("acc", "population accounting", Accounted(st))
  /\ Chk("acc", "population limit", WithinLimit(par, st))
  /\ Chk("acc", "rule fields valid", \A i \in Live(st) : ValidRule(par, st.R[i]))
OkInit(ev) ==
  /\ LET p == ev.par IN
     /\ Chk("acc", "initial accounting", Accounted(ev.s) /\ Total(ev.s) <= p.pop)
     /\ Chk("acc", "initial clock", ev.s.t = 0)
     /\ Chk("fit", "initial population size", Total(ev.s) = IF p.popinit THEN p.pop ELSE 0)
     /\ Chk("fit", "initial running error", FEq(ev.err, p.e0))
     /\ Chk("op", "initial conditions well formed", \A i \in Live(ev.s) : CondWellFormed(p, ev.s.R[i].c))
     /\ Chk("gp", "initial programs well formed", \A i \in Live(ev.s) : CondWellFormed(p, ev.s.R[i].c) /\ ProgInitial(p, ev.s.R[i].c))

OkMatch(ev) ==
  LET D == NewDead(ev.D)
      post == ev.s
      d1 == ev.born
      before == [i \in Live(s) \cup Rng(ev.born) |-> IF i \in Live(s) THEN s.R[i].n ELSE 1]
  IN
  /\ ChkAny(ProtoGroups \cup {"match"}, "a trial matches the next input", MatchExpected(ev))
  /\ ChkAny(ProtoGroups, "running error", FClose(ev.err, c.nerr))
  /\ OkState(post)
  /\ Chk("acc", "match set accounting", SetAccounted(post, ev.M))
  /\ Chk("acc", "rules only leave through deletion", DeletionOnly(s, post, D, Rng(ev.born)))
  /\ Chk("acc", "limit enforced exactly when covering", LimitEnforced(par, s, post, Len(ev.born)))
  /\ Chk("acc", "numerosity only falls by deletion", \A i \in Live(s) : At(post, D, i).n <= s.R[i].n)
  /\ Chk("match", "matched exactly when the condition accepts", MatchFlags(par, s, post, D, ev.x))
  /\ Chk("match", "match set is the matching rules", MatchExact(s, post, D, ev.M, ev.born))
  /\ ChkAny({"act", "gp"}, "matching rules advocate what their action part says", MatchActions(par, s, post, D, ev.x))
  /\ Chk("match", "counters", MatchCounters(par, s, post, D, ev.x))
  /\ Chk("match", "matching does not alter rules", MatchGenoFrame(par, s, post, D))
  /\ Chk("match", "statistics", MatchStatistics(par, s, post, ev.M))
  /\ Chk("pure", "matching does not alter rules", MatchGenoFrame(par, s, post, D) /\ MatchCounters(par, s, post, D, ev.x))
  /\ Chk("pure", "no rules without covering", ~ev.cover => ev.born = <<>> /\ post.P = s.P /\ Live(post) = Live(s))
  /\ ChkAny({"cover", "pure"}, "covers only when needed", CoverOnlyIfNeeded(par, s, post, D, ev.born, ev.cover))
  /\ Chk("cover", "every action advocated after covering", CoverComplete(par, post, ev.M, ev.cover))
  /\ Chk("cover", "one rule per missing action", CoverExact(par, s, post, D, ev.born))
  /\ Chk("cover", "new rule fields", CoverFields(par, s, post, D, ev.born, ev.x))
  /\ Chk("cover", "new rule matches the input", CoverMatches(par, post, D, ev.born, ev.x))
  /\ Chk("cover", "new rule advocates its action", CoverAction(par, post, D, ev.born))
  /\ Chk("cover", "new rule set size", CoverSizes(par, s, post, D, ev.born))
  /\ Chk("cover", "new condition well formed", \A k \in 1..Len(ev.born) :
              CoverGeometry(par, At(post, D, ev.born[k]).c, ev.x))
  /\ Chk("op", "condition well formed", \A k \in 1..Len(ev.born) : CondWellFormed(par, At(post, D, ev.born[k]).c))
  /\ Chk("gp", "program well formed", \A k \in 1..Len(ev.born) :
           LET q == At(post, D, ev.born[k]).c IN CondWellFormed(par, q) /\ ProgInitial(par, q))
  /\ Chk("gp", "programs compute their definition", MatchFlags(par, s, post, D, ev.x))
  /\ Chk("gp", "program state", ProgStates(par, s, post, D, ev.x))
  /\ Chk("del", "never-matching rules go first", Len(ev.born) <= par.na => NeverMatchFirst(par, post, D, before, DOMAIN before))
  /\ Chk("del", "limit enforced exactly when covering", LimitEnforced(par, s, post, Len(ev.born)))
  /\ Chk("del", "deletion removes only what exceeds the limit", Len(ev.born) <= par.na =>
           Total(post) >= MinOf(par.pop, Total(s)))
  /\ Chk("del", "deletion frame", \A i \in Live(s) : At(post, D, i).n <= s.R[i].n)

OkPA(ev) ==
  /\ ChkAny(ProtoGroups \cup {"pa"}, "prediction built for the matched input", PAExpected(ev))
  /\ Chk("pa", "fitness-weighted mean", PredictionArray(par, ev.s, ev.M, ev.pa, ev.nr))
  /\ Chk("pa", "fitness sums", FitnessSums(par, ev.s, ev.M, ev.nr))
  /\ ChkAny({"pa", "pure", "acc"}, "prediction alters no rule", PredictionFrame(par, s, ev.s, ev.M))
  /\ Chk("predcalc", "rule predictions follow their weights", \A i \in Rng(ev.M.i) : PredOutput(par, ev.s.R[i], ev.x))

OkBest(ev) ==
  /\ ChkAny({"rl", "act"}, "exploit decision allowed", DecideExpected(ev, FALSE))
  /\ ChkAny({"rl", "act"}, "best action", ev.a \in BestActions(par, c.pa))
OkRand(ev) ==
  /\ ChkAny({"rl", "act"}, "explore decision allowed", DecideExpected(ev, TRUE))
  /\ ChkAny({"rl", "act"}, "random action is advocated", ev.a \in 0..(par.na - 1) /\ ~FEq(c.nr[ev.a + 1], "0"))
OkAct(ev) ==
  /\ ChkAny({"rl"}, "action set follows decision", IF c.op = "rlfit" THEN c.pc = "pa" /\ ev.a = c.call.a ELSE c.pc = "exec" /\ ev.a = c.a)
  /\ ChkAny({"rl", "acc"}, "action set is the advocates",
        ev.A.z = Len(ev.A.i) /\ NoDup(ev.A.i)
        /\ Rng(ev.A.i) = {i \in Rng(c.M.i) : s.R[i].a = ev.a}
        /\ SetAccounted(ev.s, ev.A))
  /\ ChkAny({"rl", "acc"}, "action set alters no rule", ev.s.R = s.R /\ ev.s.P = s.P /\ ev.s.t = s.t)
  /\ Chk("rl", "action set statistic", FClose(ev.s.as, Toward1(s.as, F(Len(ev.A.i)))) /\ ev.s.ms = s.ms /\ ev.s.mf = s.mf)

OkUpdate(ev) ==
  LET D == NewDead(ev.D)
      S == Rng(ev.S.i)
      post == ev.s
  IN
  /\ ChkAny(ProtoGroups \cup {"upd"}, "reinforcement is due", UpdateExpected(ev))
  /\ ChkAny({"rl", "upd"}, "the right rules are reinforced", UpdateSet(ev))
  /\ ChkAny({"rl", "upd"}, "payoff target", UpdateTarget(ev))
  /\ OkState(post)
  /\ Chk("acc", "set accounting", SetAccounted(s, ev.S) /\ SetAccounted(post, ev.S2))
  /\ Chk("acc", "numerosity conserved", Total(post) = Total(s) /\ post.P.n = s.P.n)
  /\ Chk("upd", "set size true", SetAccounted(s, ev.S))
  /\ ChkAny({"upd", "rl"}, "experience", UpdExperience(s, post, D, S))
  /\ ChkAny({"upd", "rl"}, "error", UpdError(par, s, post, D, S, ev.x, ev.y, ev.cur))
  /\ Chk("upd", "set size", UpdSize(par, s, post, D, S, Nums(s, S)))
  /\ Chk("upd", "fitness", UpdFitness(par, s, post, D, ev.S.i))
  /\ Chk("upd", "frame", UpdFrame(par, s, post, D, S))
  /\ Chk("upd", "condition update", UpdCondition(par, s, post, D, S, ev.x))
  /\ ChkAny({"upd", "sub"}, "numerosity", UpdNums(par, s, post, D, S))
  /\ Chk("sub", "set subsumption", SetSubsumed(par, s, post, D, ev.S.i))
  /\ Chk("sub", "set after subsumption", Rng(ev.S2.i) = S \cap Live(post))
  /\ Chk("predlearn", "predictor update", \A i \in S : PredLearn(par, s.R[i], At(post, D, i), ev.x, ev.y, ev.cur))
  /\ Chk("loss", "error uses the configured loss", UpdError(par, s, post, D, S, ev.x, ev.y, ev.cur))

OkEA(ev) ==
  LET D == NewDead(ev.D)
      S == Rng(ev.S.i)
      post == ev.s
      runs == EARuns(par, s, ev.S.i, Nums(s, S))
      near == FALSE
      K == {k \in 1..Len(ev.off) : ~Inserted(post, D, ev.off[k])}
      ab == [k \in K |-> Absorb(par, s, S, ev.off, k)]
      det == \A k \in K : Cardinality(ab[k].by) = 1
      ids == Live(s) \cup {ev.off[k].id : k \in (1..Len(ev.off)) \ K}
      before == [i \in ids |-> IF i \in Live(s) THEN s.R[i].n + Cardinality({k \in K : ab[k].by = {i}}) ELSE 1]
  IN
  /\ ChkAny(ProtoGroups \cup {"ea"}, "the EA is due", EAExpected(ev))
  /\ ChkAny({"ea", "acc"}, "clock", EAClock(s, post))
  /\ ChkAny({"ea"}, "the EA works on the reinforced set", ev.S = c.S)
  /\ OkState(post)
  /\ Chk("acc", "set accounting", SetAccounted(s, ev.S))
  /\ Chk("acc", "rules only leave through deletion", DeletionOnly(s, post, D, {ev.off[k].id : k \in (1..Len(ev.off)) \ K}))
  /\ IF ~runs
     THEN ChkAny({"ea", "acc"}, "the EA is idle before its interval", EAIdle(s, post, ev.off))
     ELSE
     /\ Chk("ea", "parents", EAParents(par, s, S, ev.off))
     /\ Chk("ea", "time stamps", EATimes(s, post, D, S))
     /\ ChkAny({"ea", "acc"}, "frame", EAFrame(s, post, D, ev.off))
     /\ Chk("ea", "copies are exact", EACopies(par, s, ev.off))
     /\ ChkAny({"ea", "op"}, "operators report changes", EAReports(par, s, ev.off))
     /\ Chk("ea", "offspring parameters", EAOffspring(par, s, post, D, ev.off))
     /\ ChkAny({"ea", "sub"}, "fate of each offspring", EAFates(par, s, post, D, S, ev.off))
     /\ ChkAny({"ea", "acc", "sub", "del"}, "numerosities", EANums(par, s, post, D, S, ev.off))
     /\ Chk("op", "crossover exchanges genes", EACrossover(par, ev.off))
     /\ Chk("op", "mutation keeps conditions valid", EAMutation(par, ev.off))
     /\ Chk("op", "population conditions well formed", \A i \in Live(post) : CondWellFormed(par, post.R[i].c))
     /\ Chk("gp", "programs stay well formed", \A i \in Live(post) : CondWellFormed(par, post.R[i].c))
     /\ Chk("gp", "program operators", EAPrograms(par, ev.off))
     /\ Chk("prog", "offspring predictor", EAPredictor(par, s, post, D, ev.off))
     /\ Chk("del", "never-matching rules go first", det => NeverMatchFirst(par, post, D, before, ids))

OkRet(ev) ==
  CASE ev.op = "fit" ->
       /\ ChkAny({"fit"}, "all trials were run", c.pc = "trial" /\ c.k = c.call.trials /\ ~c.test)
       /\ ChkAny({"fit"}, "running error", FClose(ev.err, c.nerr))
       /\ ChkAny({"fit", "loss"}, "returned training error", FNear(ev.r, FDiv(c.sum, F(c.call.trials)), "1e-9"))
    [] ev.op = "predict" ->
       /\ ChkAny({"pure", "fit"}, "one answer per input", c.k = Len(c.call.x) /\ Len(ev.out) = c.k)
       /\ ChkAny({"pure", "pa"}, "answers are the system predictions", ev.out = c.outs)
       /\ ChkAny({"pure"}, "running error untouched", FEq(ev.err, c.err))
    [] ev.op = "score" ->
       LET n == IF c.call.N = 0 \/ c.call.N > Len(c.call.x) THEN Len(c.call.x) ELSE c.call.N IN
       /\ ChkAny({"pure", "fit"}, "all samples scored", c.k = n)
       /\ ChkAny({"pure", "loss", "fit"}, "score is the mean loss", FNear(ev.r, FDiv(c.sum, F(n)), "1e-9"))
       /\ ChkAny({"pure"}, "running error untouched", FEq(ev.err, c.err))
    [] ev.op = "rltrial" -> ChkAny({"rl"}, "trial complete", c.pc \in {"trial", "start"} /\ FClose(ev.err, c.nerr))
    [] ev.op = "rlexp" ->
       /\ ChkAny({"rl"}, "experiment complete", StepComplete /\ c.k + 1 = 2 * c.call.trials /\ (c.done \/ c.steps = par.tele))
       /\ ChkAny({"rl"}, "running error", FClose(ev.err, c.nerr))
       /\ ChkAny({"rl"}, "mean performance", FNear(ev.r, FDiv(FAdd(c.perf, LastPerf), F(c.call.trials)), "1e-9"))
    [] ev.op = "rlfit" ->
       /\ ChkAny({"rl"}, "reinforcement complete", StepComplete)
       /\ ChkAny({"rl"}, "returned error", FClose(ev.r, LossOf(par, <<c.pa[c.call.a + 1]>>, <<c.call.r>>)))
       /\ ChkAny({"rl"}, "running error", FClose(ev.err, Toward1(c.err, ev.r)))
    [] OTHER -> ChkAny({"rl"}, "known operation", FALSE)

(* histograms: N draws, probability p, h hits *)
Plausible(h, n, p) ==
  LET m == FMul(F(n), p)
      sd == FSqrt(FMul(m, FMax("0", FSub("1", p))))
  IN FLe(FAbs(FSub(F(h), m)), FAdd(FMul("6", sd), "3"))
OkDelStat(ev) ==
  LET L == Live(s)
      nm == {i \in L : NeverMatched(par, s.R[i])}
      avg == MeanFit(s)
      vote == [i \in L |-> DelVote(par, s.R[i], avg)]
      tot == FSum([k \in 1..Len(s.P.i) |-> vote[s.P.i[k]]])
      p == [i \in L |-> FDiv(vote[i], tot)]
      two == par.compact /\ FLt(ev.err, par.e0)
      sz == [i \in L |-> IF two THEN StructSize(par, s.R[i]) ELSE 0]
      mass(T) == LET q0 == SetToSeq(T) IN FSum([k \in 1..Len(q0) |-> p[q0[k]]])
      q(i) == IF ~two THEN p[i]
              ELSE FMul(p[i], FAdd(mass({j \in L : sz[j] <= sz[i]}), mass({j \in L : sz[j] < sz[i]})))
  IN /\ Chk("del", "one micro-rule per deletion", ev.bad = 0)
     /\ IF nm # {}
        THEN Chk("del", "never-matching rule deleted", SumOver(ev.H, nm) = ev.N)
        ELSE Chk("del", "deletion frequencies follow the votes", \A i \in L : Plausible(ev.H[i], ev.N, q(i)))
OkSelStat(ev) ==
  LET L == Rng(ev.order)
      n == Len(ev.order)
      tot == FSum([k \in 1..n |-> s.R[ev.order[k]].f])
      pos == [i \in L |-> CHOOSE k \in 1..n : ev.order[k] = i]
      better(i) == Cardinality({j \in L : FLt(s.R[i].f, s.R[j].f) \/ (FEq(s.R[i].f, s.R[j].f) /\ pos[j] < pos[i])})
      out == FSub("1", par.selsize)
      p(i) == IF par.selt = 0 THEN FDiv(s.R[i].f, tot)
              ELSE FDiv(FMul(par.selsize, FPow(out, F(better(i)))), FSub("1", FPow(out, F(n))))
  IN /\ Chk("ea", "a pair of offspring each time", ev.pairs = ev.N)
     /\ Chk("ea", "first parent frequencies", \A i \in L : Plausible(ev.H1[i], ev.N, p(i)))
     /\ Chk("ea", "second parent frequencies", \A i \in L : Plausible(ev.H2[i], ev.N, p(i)))
     /\ Chk("ea", "the parents are drawn independently",
             LET ps == [k \in 1..n |-> FMul(p(ev.order[k]), p(ev.order[k]))] IN Plausible(ev.same, ev.N, FSum(ps)))
     /\ Chk("ea", "crossover frequency", FLe(F(ev.cross), FAdd(FMul(F(ev.N), par.pcross), FAdd("3", FMul("6", FSqrt(FMul(F(ev.N), par.pcross)))))))
OkActStat(ev) ==
  LET adv == {a \in 0..(par.na - 1) : ~FEq(ev.nr[a + 1], "0")}
      best == BestActions(par, ev.pa)
      pe == IF ev.ex THEN par.pexp ELSE "0"
      p(a) == FAdd(FMul(pe, IF a \in adv THEN FDiv("1", F(Cardinality(adv))) ELSE "0"),
                   FMul(FSub("1", pe), IF a \in best THEN FDiv("1", F(Cardinality(best))) ELSE "0"))
  IN /\ ChkAny({"rl", "act"}, "only valid actions", ev.bad = 0)
     /\ ChkAny({"rl", "act"}, "action frequencies", \A a \in 0..(par.na - 1) : Plausible(ev.H[a + 1], ev.N, p(a)))

OkExec(ev) ==
  ChkAny({"rl"}, "the chosen action is executed", c.pc = "dec" /\ ev.a = c.a)
OkEnvReset(ev) ==
  /\ ChkAny({"rl"}, "trial boundary", c.pc = "start" \/ (StepComplete /\ (c.done \/ c.steps = par.tele)))
  /\ ChkAny({"rl"}, "running error", FClose(ev.err, c.nerr))
OkStep(ev) == ChkAny({"rl"}, "decision taken", c.pc = "dec" /\ ev.chosen = c.a)
OkRLErr(ev) ==
  /\ ChkAny({"rl"}, "step complete", StepComplete)
  /\ ChkAny({"rl"}, "running error before", FClose(ev.before, c.err))
  /\ ChkAny({"rl"}, "step error", FNear(ev.ret, StepError(c.a, c.r), "1e-9"))
  /\ ChkAny({"rl"}, "running error", FClose(ev.err, Toward1(c.err, ev.ret)))
OkEndStep(ev) ==
  /\ ChkAny({"rl"}, "previous action set", c.done \/ ev.V.i = c.A.i)
  /\ ChkAny({"rl"}, "previous reward and prediction", ev.pr = c.r /\ ev.pp = c.pa[c.a + 1])

Ok(ev) ==
  CASE ev.e = "Init" -> OkInit(ev)
    [] ev.e = "Call" -> ChkAny({"fit", "pure", "rl"}, "running error kept between calls", "err" \notin DOMAIN ev \/ FEq(ev.err, c.nerr))
    [] ev.e = "Match" -> OkMatch(ev)
    [] ev.e = "PA" -> OkPA(ev)
    [] ev.e = "Best" -> OkBest(ev)
    [] ev.e = "Rand" -> OkRand(ev)
    [] ev.e = "Act" -> OkAct(ev)
    [] ev.e = "Update" -> OkUpdate(ev)
    [] ev.e = "EA" -> OkEA(ev)
    [] ev.e = "Step" -> OkStep(ev)
    [] ev.e = "RLErr" -> OkRLErr(ev)
    [] ev.e = "EndStep" -> OkEndStep(ev)
    [] ev.e = "Exec" -> OkExec(ev)
    [] ev.e = "EnvReset" -> OkEnvReset(ev)
    [] ev.e = "Ret" -> OkRet(ev)
    [] ev.e = "DelStat" -> OkDelStat(ev)
    [] ev.e = "Parts" ->
         /\ Chk("op", "mutation of a part", \A k \in 1..Len(ev.mut) : PartMutation(par, ev.mut[k]))
         /\ Chk("op", "crossover of a part", \A k \in 1..Len(ev.cross) : PartCrossover(par, ev.cross[k]))
    [] ev.e = "SelStat" -> OkSelStat(ev)
    [] ev.e = "ActStat" -> OkActStat(ev)
    [] ev.e = "Loss" -> Chk("loss", "the loss is its definition", FNear(ev.v, LossOf(par, ev.p, ev.y), "1e-12") /\ FFinite(ev.v))
    [] ev.e = "Reset" -> TRUE
    [] ev.e = "End" -> Chk("mem", "everything is released", ev.leak = 0)
    [] OTHER -> PrintT(<<"FAIL", "frame", ev.e, "event", l, ev>>) /\ FALSE

(***************************************************************************)
(* Control state after the event                                           *)
(***************************************************************************)
AfterSupervised(cc, pa) ==
  (* a supervised trial that reinforces nothing ends with its prediction     *)
  LET loss == IF cc.op = "predict" THEN "0" ELSE LossIn(cc, pa) IN
  [cc EXCEPT !.pc = "trial", !.pa = pa, !.dead = {},
     !.k = IF cc.op = "fit" THEN cc.k + 1 ELSE @ + 1,
     !.test = FALSE,
     !.sum = IF cc.op = "score" THEN FAdd(cc.sum, loss) ELSE @,
     !.outs = IF cc.op = "predict" THEN Append(@, pa) ELSE @]
Ctl(ev) ==
  CASE ev.e = "Init" -> Idle(ev.err)
    [] ev.e = "Call" -> [Idle(c.nerr) EXCEPT !.op = ev.op, !.pc = "start", !.call = ev,
                          !.ex = IF ev.op = "rltrial" THEN ev.explore ELSE TRUE]
    [] ev.e = "Match" ->
         LET c0 == IF c.op = "rlexp" /\ c.pc # "reset"
                   THEN [c EXCEPT !.V = c.A, !.pr = c.r, !.pp = c.pa[c.a + 1], !.px = c.x] ELSE c
             cc == [c0 EXCEPT !.pc = "match", !.x = ev.x, !.M = ev.M, !.err = c.nerr, !.dead = Dead(ev.D),
                             !.ex = IF c.op = "actstat" THEN ev.ex ELSE @] IN
         IF Supervised(c.op) /\ ~ev.cover /\ ev.M.i = <<>>
         THEN AfterSupervised(cc, c.call.cover) ELSE cc
    [] ev.e = "PA" ->
         LET cc == [c EXCEPT !.pc = "pa", !.pa = ev.pa, !.nr = ev.nr] IN
         IF c.op \in {"predict", "score"} \/ FitTest THEN AfterSupervised(cc, ev.pa)
         ELSE cc
    [] ev.e \in {"Best", "Rand"} -> [c EXCEPT !.pc = "dec", !.a = ev.a]
    [] ev.e = "Step" -> [c EXCEPT !.pc = "exec", !.a = ev.a, !.r = ev.r, !.done = ev.done, !.maxp = ev.maxp, !.steps = @ + 1]
    [] ev.e = "Exec" -> [c EXCEPT !.pc = "exec", !.r = ev.r, !.done = ev.done, !.maxp = ev.maxp, !.steps = @ + 1, !.multi = ev.multi]
    [] ev.e = "Act" ->
         LET cc == [c EXCEPT !.pc = "act", !.A = ev.A, !.a = ev.a,
                      !.vl = \E i \in Rng(c.V.i) : i \in Live(ev.s),
                      !.r = IF c.op = "rlfit" THEN c.call.r ELSE @,
                      !.done = IF c.op = "rlfit" THEN TRUE ELSE @]
         IN IF c.op = "rlexp" THEN [cc EXCEPT !.nerr = Toward1(c.err, StepErrorIn(cc, c.a, c.r))] ELSE cc
    [] ev.e = "Update" ->
         [c EXCEPT !.pc = CASE ev.w = "m" -> "upd" [] ev.w = "v" -> "vupd" [] OTHER -> "aupd",
                   !.S = ev.S2, !.dead = Dead(ev.D)]
    [] ev.e = "EA" ->
         CASE c.op = "fit" ->
                LET loss == LossIn(c, c.pa)
                    cc == [c EXCEPT !.sum = FAdd(@, loss), !.nerr = Toward1(c.err, loss), !.dead = {}]
                IN IF c.call.tx # <<>> THEN [cc EXCEPT !.pc = "trial", !.test = TRUE]
                   ELSE [cc EXCEPT !.pc = "trial", !.k = @ + 1]
           [] OTHER -> [c EXCEPT !.pc = IF ev.w = "v" THEN "vdone" ELSE "adone", !.dead = Dead(ev.D)]
    [] ev.e = "RLErr" -> [c EXCEPT !.nerr = ev.err, !.err = ev.err]
    [] ev.e = "EndStep" -> [c EXCEPT !.pc = "trial", !.V = c.A, !.pr = c.r, !.pp = c.pa[c.a + 1], !.px = c.x]
    [] ev.e = "EnvReset" ->
         IF c.pc = "start" THEN [c EXCEPT !.pc = "reset", !.ex = TRUE]
         ELSE [c EXCEPT !.pc = "reset", !.ex = ~c.ex, !.k = @ + 1, !.V = NoSet, !.dead = {}, !.done = FALSE, !.steps = 0,
                        !.err = c.nerr, !.pr = "0", !.pp = "0",
                        !.perf = IF ~c.ex THEN FAdd(@, LastPerf) ELSE @]
    [] ev.e = "Ret" -> Idle(IF "err" \in DOMAIN ev THEN ev.err ELSE c.nerr)
    [] ev.e = "Reset" -> Idle(ev.err)
    [] ev.e = "DelStat" -> Idle(ev.err)
    [] ev.e = "ActStat" -> Idle(c.nerr)
    [] OTHER -> c

Init ==
  /\ l = 1
  /\ par = [na |-> 1]
  /\ s = [R |-> [none |-> 0]]
  /\ c = Idle("1")
(* the recorded state names every rule and writes out those that changed     *)
Full(st) == [st EXCEPT !.R = [i \in Rng(st.P.i) |-> 
   IF i \notin DOMAIN st.R THEN s.R[i]
   ELSE IF Trace[l].e # "Init" /\ i \in DOMAIN s.R THEN st.R[i] @@ s.R[i] ELSE st.R[i]]]
Next ==
  /\ l <= Len(Trace)
  /\ LET ev == IF "s" \in DOMAIN Trace[l] THEN [Trace[l] EXCEPT !.s = Full(Trace[l].s)] ELSE Trace[l] IN
     /\ Ok(ev) = TRUE
     /\ l' = l + 1
     /\ par' = IF ev.e = "Init" THEN ev.par ELSE par
     /\ s' = IF "s" \in DOMAIN ev THEN ev.s ELSE s
     /\ c' = Ctl(ev)
Spec == Init /\ [][Next]_vars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
