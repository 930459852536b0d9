-------------------------------- MODULE Pred --------------------------------
(***************************************************************************)
(* Rule predictors.  par.ptype: 0 constant, 1/2 NLMS linear/quadratic,     *)
(* 3/4 RLS linear/quadratic, 5 neural.  r.w is the predictor's genotype     *)
(* (present when the trace records it), r.p the current prediction.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Dbl, Neural

(* bias, the inputs, and for the quadratic kinds every product x_i x_j, i<=j *)
RECURSIVE Quad(_, _, _)
Quad(x, i, j) == IF i > Len(x) THEN <<>>
                 ELSE IF j > Len(x) THEN Quad(x, i + 1, i + 1)
                 ELSE <<FMul(x[i], x[j])>> \o Quad(x, i, j + 1)
PInput(par, x) == <<par.x0>> \o x \o (IF par.ptype \in {2, 4} THEN Quad(x, 1, 1) ELSE <<>>)
WRow(w, n, j) == SubSeq(w, (j - 1) * n + 1, j * n)
Lin(par) == par.ptype \in {1, 2, 3, 4}
PValue(par, w, x) ==
  LET in == PInput(par, x) n == Len(in) IN
  [j \in 1..par.yd |-> FDot(WRow(w.w, n, j), in)]
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : FNear(a[k], b[k], tol)

PredOutput(par, r, x) ==
  IF "w" \notin DOMAIN r THEN TRUE
  ELSE CASE Lin(par) -> /\ Len(r.w.w) = par.yd * Len(PInput(par, x))
                        /\ NearSeq(r.p, PValue(par, r.w, x), "1e-9")
         [] par.ptype = 5 /\ NetPlain(r.w.N) -> NearSeq(r.p, NetRun(r.w.N, x), "1e-9")
         [] OTHER -> TRUE

(* a -> b: rule a is taught y for x *)
NLMSStep(par, w, x, y) ==
  LET in == PInput(par, x)
      n == Len(in)
      p == PValue(par, w, x)
      norm == FAdd(FMul(par.x0, par.x0), FDot(x, x))
  IN [k \in 1..Len(w.w) |->
        LET j == ((k - 1) \div n) + 1 i == ((k - 1) % n) + 1 IN
        FAdd(w.w[k], FMul(FDiv(FMul(w.eta, FSub(y[j], p[j])), norm), in[i]))]
RLSGain(par, w, x) ==
  LET in == PInput(par, x)
      n == Len(in)
      v == [i \in 1..n |-> FDot(WRow(w.M, n, i), in)]
      d == FAdd(par.rlsl, FDot(in, v))
  IN [i \in 1..n |-> FDiv(v[i], d)]
RLSWeights(par, w, x, y) ==
  LET g == RLSGain(par, w, x)
      n == Len(g)
      p == PValue(par, w, x)
  IN [k \in 1..Len(w.w) |->
        LET j == ((k - 1) \div n) + 1 i == ((k - 1) % n) + 1 IN
        FAdd(w.w[k], FMul(FSub(y[j], p[j]), g[i]))]
RLSMatrix(par, w, x) ==
  LET g == RLSGain(par, w, x)
      n == Len(g)
      in == PInput(par, x)
      xm == [j \in 1..n |-> FDot(in, [i \in 1..n |-> w.M[(i - 1) * n + j]])]
  IN [k \in 1..(n * n) |->
        LET i == ((k - 1) \div n) + 1 j == ((k - 1) % n) + 1 IN
        FDiv(FSub(w.M[k], FMul(g[i], xm[j])), par.rlsl)]
RECURSIVE SeqAbsMax(_, _)
SeqAbsMax(q, k) == IF k = 0 THEN "0" ELSE FMax(FAbs(q[k]), SeqAbsMax(q, k - 1))
ConstStep(par, a, x1, y) ==
  [j \in 1..par.yd |->
     IF FLt(FMul(F(x1), par.beta), "1") THEN FDiv(FAdd(FMul(a[j], F(x1 - 1)), y[j]), F(x1))
     ELSE FAdd(a[j], FMul(par.beta, FSub(y[j], a[j])))]
PredLearn(par, a, b, x, y, cur) ==
  CASE par.ptype = 0 -> NearSeq(b.p, ConstStep(par, a.p, a.x + 1, y), "1e-9")
    [] "w" \notin DOMAIN a -> TRUE
    [] par.ptype \in {1, 2} ->
         /\ NearSeq(b.w.w, NLMSStep(par, a.w, x, y), "1e-8")
         /\ b.w.eta = a.w.eta
         /\ NearSeq(b.p, PValue(par, a.w, x), "1e-9")
    [] par.ptype \in {3, 4} ->
         LET m == FAdd("1", SeqAbsMax(a.w.M, Len(a.w.M)))
             want == RLSMatrix(par, a.w, x)
         IN /\ NearSeq(b.w.w, RLSWeights(par, a.w, x, y), "1e-7")
            /\ \A k \in 1..Len(want) : FLe(FAbs(FSub(b.w.M[k], want[k])), FMul("1e-9", m))
            /\ NearSeq(b.p, PValue(par, a.w, x), "1e-9")
    [] OTHER -> TRUE

(* a fresh predictor *)
PredFresh(par, w) ==
  CASE w.k = "nlms" ->
         /\ \A k \in 1..Len(w.w) : FEq(w.w[k], IF (k - 1) % w.n = 0 THEN par.x0 ELSE "0")
         /\ w.n * par.yd = Len(w.w)
         /\ IF par.evoeta THEN FLe(par.petamin, w.eta) /\ FLe(w.eta, par.peta) ELSE FEq(w.eta, par.peta)
    [] w.k = "rls" ->
         /\ \A k \in 1..Len(w.w) : FEq(w.w[k], IF (k - 1) % w.n = 0 THEN par.x0 ELSE "0")
         /\ w.n * par.yd = Len(w.w)
         /\ \A k \in 1..Len(w.M) : FEq(w.M[k], IF (k - 1) \div w.n = (k - 1) % w.n THEN par.rlss ELSE "0")
    [] OTHER -> TRUE
(* w is what an offspring of a rule with predictor v starts with            *)
PredInherit(par, v, w) ==
  IF par.predreset THEN PredFresh(par, w)
  ELSE CASE w.k = "nlms" -> w = v
         [] w.k = "rls" -> w.w = v.w /\ w.n = v.n /\ (w.M = v.M \/ \A k \in 1..Len(w.M) :
                              FEq(w.M[k], IF (k - 1) \div w.n = (k - 1) % w.n THEN par.rlss ELSE "0"))
         [] OTHER -> TRUE
PredMutated(par, v, w) ==
  CASE w.k = "nlms" ->
         /\ w.w = v.w
         /\ IF par.evoeta THEN FLe(par.petamin, w.eta) /\ FLe(w.eta, par.peta) ELSE w.eta = v.eta
    [] w.k = "rls" -> w = v
    [] OTHER -> TRUE
=============================================================================
