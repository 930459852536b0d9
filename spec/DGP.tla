-------------------------------- MODULE DGP --------------------------------
(***************************************************************************)
(* Dynamical GP graphs: n fuzzy-logic nodes, each reading k sources (an     *)
(* external input c < ni, or the node c - ni), updated synchronously t      *)
(* times.  Node functions: 0 NOT, 1 AND (product), 2 OR (sum), all clamped  *)
(* to [0,1].                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Dbl
LOCAL Clamp01(v) == FMin(FMax(v, "0"), "1")

GraphWellFormed(par, G) ==
  /\ G.n = par.dn /\ G.k = par.dk /\ G.ni = par.din /\ G.mt = par.dt
  /\ Len(G.fn) = G.n /\ Len(G.cn) = G.n * G.k
  /\ Len(G.st) = G.n /\ Len(G.i0) = G.n
  /\ \A i \in 1..G.n : G.fn[i] \in 0..2
  /\ \A i \in 1..Len(G.cn) : G.cn[i] \in 0..(G.ni + G.n - 1)
  /\ \A i \in 1..G.n : FLe("0", G.st[i]) /\ FLe(G.st[i], "1") /\ FLe("0", G.i0[i]) /\ FLe(G.i0[i], "1")
  /\ G.t >= 1 /\ G.t <= G.mt
  /\ (par.dec = 0 => G.t = G.mt)
  /\ \A i \in 1..Len(G.mu) : FLe("0.0005", G.mu[i]) /\ FLe(G.mu[i], "1")

RECURSIVE FProd(_, _)
LOCAL FProd(q, k) == IF k = 1 THEN q[1] ELSE FMul(FProd(q, k - 1), q[k])
NodeOut(f, in) ==
  Clamp01(CASE f = 0 -> FSub("1", in[1])
            [] f = 1 -> FProd(in, Len(in))
            [] f = 2 -> FSum(in))
GraphStep(G, st, x) ==
  [i \in 1..G.n |->
     NodeOut(G.fn[i], [j \in 1..G.k |->
        LET c == G.cn[(i - 1) * G.k + j] IN
        IF c < G.ni THEN x[c + 1] ELSE st[c - G.ni + 1]])]
RECURSIVE GraphIter(_, _, _, _)
GraphIter(G, st, x, t) == IF t = 0 THEN st ELSE GraphIter(G, GraphStep(G, st, x), x, t - 1)
(* node states after the graph has seen x, from the states in G             *)
GraphRun(par, G, x) == GraphIter(G, IF par.stateful THEN G.st ELSE G.i0, x, G.t)
(* the action encoded by nodes 1..nout                                      *)
RECURSIVE BitSum(_, _, _)
LOCAL BitSum(st, i, n) == IF i > n THEN 0
                    ELSE (IF FLt("0.5", st[i + 1]) THEN 2^(i - 1) ELSE 0) + BitSum(st, i + 1, n)
GraphAction(par, st, nout) ==
  LET v == BitSum(st, 1, nout) IN IF v > par.na - 1 THEN par.na - 1 ELSE v
GraphMutated(par, G, H) ==
  /\ GraphWellFormed(par, H)
  /\ H.i0 = G.i0 /\ H.st = G.st
  /\ (H.t - G.t) \in {-1, 0, 1}
=============================================================================
