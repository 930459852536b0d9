----------------------------- MODULE LearnModel -----------------------------
(***************************************************************************)
(* The arithmetic of prediction and reinforcement on a small grid: what the   *)
(* formulas of XCSF.tla, Pred.tla and Loss.tla are for.  One action set of     *)
(* two rules, one input, any targets; every loss.                              *)
(***************************************************************************)
EXTENDS XCSF, TLC
CONSTANTS What, Steps
VARIABLES k, a, b, seen, par, w
vars == <<k, a, b, seen, par, w>>

Base == [na |-> 1, yd |-> 1, xd |-> 1, beta |-> "0.2", alpha |-> "0.1", nu |-> "5", e0 |-> "0.5", loss |-> 0, huber |-> "1", setsub |-> FALSE,
         ctype |-> 0, ptype |-> 0, ceta |-> "0", x0 |-> "1", rlsl |-> "1", rlss |-> "100", gpnc |-> 0]
Rule(n, e, f) == [n |-> n, x |-> 0, e |-> e, f |-> f, z |-> "1", a |-> 0, p |-> <<"0">>]
Targets == {"-1", "0", "0.5", "2"}
Xs == {<<"-1">>, <<"0.5">>, <<"2">>}
W0(pt) == LET n == IF pt \in {2, 4} THEN 3 ELSE 2 IN
          [k |-> IF pt \in {1, 2} THEN "nlms" ELSE "rls", n |-> n, eta |-> "0.5", mu |-> <<>>,
           w |-> [i \in 1..n |-> IF i = 1 THEN "1" ELSE "0"], M |-> [i \in 1..(n * n) |-> IF (i - 1) \div n = (i - 1) % n THEN "100" ELSE "0"]]
Init ==
  /\ k = 0 /\ seen = <<>>
  /\ IF What = "rule" THEN /\ par \in {[Base EXCEPT !.loss = l, !.e0 = e] : l \in {0, 1, 2, 6}, e \in {"0.01", "0.5"}} /\ w = <<>>
                           /\ a \in {Rule(n, e, f) : n \in {1, 3}, e \in {"0", "1"}, f \in {"0.01", "1"}} /\ b \in {Rule(n, "0.5", "0.1") : n \in {1, 2}}
     ELSE /\ par \in {[Base EXCEPT !.ptype = pt] : pt \in 1..4} /\ w = W0(par.ptype) /\ a = Rule(1, "0", "1") /\ b = a
(* one reinforcement of the set {a, b}                                          *)
Taught(r, y) ==
  LET e1 == UpdErr(par, r.e, r.x + 1, LossOf(par, r.p, <<y>>)) IN
  [r EXCEPT !.x = @ + 1, !.e = e1, !.z = UpdErr(par, r.z, r.x + 1, F(a.n + b.n)), !.p = ConstStep(par, r.p, r.x + 1, <<y>>)]
Fit(r, o) == LET tot == FAdd(FMul(Accuracy(par, r.e), F(r.n)), FMul(Accuracy(par, o.e), F(o.n))) IN
             FAdd(r.f, FMul(par.beta, FSub(FDiv(FMul(Accuracy(par, r.e), F(r.n)), tot), r.f)))
Reinforce ==
  /\ What = "rule" /\ k < Steps /\ k' = k + 1 /\ UNCHANGED <<par, w>>
  /\ \E y \in Targets : LET a1 == Taught(a, y) b1 == Taught(b, y) IN
       /\ a' = [a1 EXCEPT !.f = Fit(a1, b1)] /\ b' = [b1 EXCEPT !.f = Fit(b1, a1)] /\ seen' = Append(seen, y)
Teach ==
  /\ What = "pred" /\ k < Steps /\ k' = k + 1 /\ UNCHANGED <<par, a, b>>
  /\ \E y \in Targets, x \in Xs :
       /\ seen' = Append(seen, <<x, y>>)
       /\ w' = IF par.ptype \in {1, 2} THEN [w EXCEPT !.w = NLMSStep(par, w, x, <<y>>)]
               ELSE [w EXCEPT !.w = RLSWeights(par, w, x, <<y>>), !.M = RLSMatrix(par, w, x)]
Next == Reinforce \/ Teach
Spec == Init /\ [][Next]_vars

(* rules: errors and sizes stay within what was seen, fitness within (0, 1]      *)
Within(v, lo, hi) == (FLe(lo, v) \/ FClose(lo, v)) /\ (FLe(v, hi) \/ FClose(v, hi))
InvError == What = "rule" => FLe("0", a.e) /\ FLe("0", b.e)
InvSize == What = "rule" => Within(a.z, "1", F(a.n + b.n))
InvFitness == What = "rule" => FLt("0", a.f) /\ Within(a.f, "0", "1") /\ FLt("0", b.f)
(* the shares of a set add up to one                                             *)
InvShares == (What = "rule" /\ k > 0) =>
  LET A1 == FMul(Accuracy(par, a.e), F(a.n)) B1 == FMul(Accuracy(par, b.e), F(b.n)) IN FClose(FAdd(FDiv(A1, FAdd(A1, B1)), FDiv(B1, FAdd(A1, B1))), "1")
(* while young, a constant prediction is the mean of its targets, and the size     *)
(* estimate the mean of the set sizes                                             *)
InvMean == (What = "rule" /\ k > 0 /\ FLt(FMul(F(k), par.beta), "1")) =>
  FClose(a.p[1], FDiv(FSum(seen), F(k))) /\ FClose(a.z, F(a.n + b.n))
InvAccuracy == What = "rule" => /\ FLt("0", Accuracy(par, a.e)) /\ FLe(Accuracy(par, a.e), "1")
                                /\ (FLe(a.e, b.e) => FLe(Accuracy(par, b.e), Accuracy(par, a.e)) \/ FLe(a.e, par.e0) \/ FLe(b.e, par.e0))
(* losses are never negative and vanish on a perfect prediction                   *)
InvLoss == What = "rule" => \A y \in Targets, p \in Targets :
  /\ FLe("0", LossOf(par, <<p>>, <<y>>)) /\ (FEq(p, y) <=> FEq(LossOf(par, <<p>>, <<y>>), "0"))
  /\ FEq(LossOf(par, <<p>>, <<y>>), LossOf(par, <<y>>, <<p>>))
(* normalised gradient descent: a lesson repeated shrinks the error              *)
Err(v, x, y) == FAbs(FSub(y, PValue(par, v, x)[1]))
InvNLMS == (What = "pred" /\ par.ptype = 1) => \A x \in Xs, y \in Targets :
  LET v == [w EXCEPT !.w = NLMSStep(par, w, x, <<y>>)] IN FNear(Err(v, x, y), FMul(FSub("1", w.eta), Err(w, x, y)), "1e-9")
(* recursive least squares: the weights solve the regularised normal equations    *)
(* of everything seen (forgetting 1): (I/s + sum x x') w = I/s w0 + sum x y        *)
In(x) == PInput(par, x)
n == Len(w.w)
Lhs(i) == FAdd(FDiv(w.w[i], "100"), FSum([j \in 1..Len(seen) |-> FMul(In(seen[j][1])[i], FDot(In(seen[j][1]), w.w))]))
Rhs(i) == FAdd(IF i = 1 THEN "0.01" ELSE "0", FSum([j \in 1..Len(seen) |-> FMul(In(seen[j][1])[i], seen[j][2])]))
InvRLS == (What = "pred" /\ par.ptype \in {3, 4}) => \A i \in 1..n : FNear(Lhs(i), Rhs(i), "1e-6")
InvGainSymmetric == (What = "pred" /\ par.ptype \in {3, 4}) => \A i, j \in 1..n : FNear(w.M[(i - 1) * n + j], w.M[(j - 1) * n + i], "1e-7")
(* the system prediction is a weighted mean: it lies between its members'          *)
PA(p1, p2) == FDiv(FAdd(FMul(a.f, p1), FMul(b.f, p2)), FAdd(a.f, b.f))
InvMeanOf == What = "rule" => \A p1 \in Targets, p2 \in Targets : Within(PA(p1, p2), FMin(p1, p2), FMax(p1, p2))
=============================================================================
