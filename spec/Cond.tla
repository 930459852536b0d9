-------------------------------- MODULE Cond --------------------------------
(***************************************************************************)
(* Rule conditions (and integer actions): what they accept, when one is    *)
(* more general than another, and what the operators may do to them.       *)
(* Results are "yes", "no" or "maybe" (too near a floating-point threshold *)
(* to be decided independently of the order of summation).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Dbl, GP, DGP, Neural

(* par.ctype: 0 dummy, 1 centre-spread, 2 unordered bounds, 3 ellipsoid,    *)
(* 4 neural, 5 tree GP, 6 DGP, 7 ternary, 11 rule DGP, 12 rule neural       *)
CondGeometric(par) == par.ctype \in {1, 2, 3, 7}
(* evaluating the condition or action changes nothing in the rule           *)
CondStatic(par) == par.ctype \in {0, 1, 2, 3, 5, 7} /\ par.atype = 0
CondLearns(par) == par.ctype \in {1, 3} /\ FLt("0", par.ceta)
(* evaluating the predictor changes nothing in the rule but its prediction  *)
PredStatic(par) == par.ptype \in {0, 1, 2, 3, 4}

Lo(c, k) == IF c.k = "csr" THEN FSub(c.a[k], c.b[k]) ELSE FMin(c.a[k], c.b[k])
Hi(c, k) == IF c.k = "csr" THEN FAdd(c.a[k], c.b[k]) ELSE FMax(c.a[k], c.b[k])
Dist(c, x) == FSum([k \in 1..Len(x) |->
                 LET d == FDiv(FSub(x[k], c.a[k]), c.b[k]) IN FMul(d, d)])
YN(b) == IF b THEN "yes" ELSE "no"
(* threshold test "v < t" (strict) / "v > t", undecided very near t          *)
Below(v, t) == IF FLt(v, t) THEN (IF FNear(v, t, "1e-12") THEN "maybe" ELSE "yes")
               ELSE IF FEq(v, t) THEN "no"
               ELSE IF FNear(v, t, "1e-12") THEN "maybe" ELSE "no"
AtMost(v, t) == IF FEq(v, t) THEN "yes"
               ELSE IF FNear(v, t, "1e-12") THEN "maybe"
               ELSE YN(FLt(v, t))
Above(v, t) == IF FNear(v, t, "1e-9") /\ ~FEq(v, t) THEN "maybe" ELSE YN(FLt(t, v))

(* an input in [0,1] as a sequence of bits, most significant first          *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Bits(v, n) ==
  IF FLe("1", v) THEN [k \in 1..n |-> "1"]
  ELSE IF FLe(v, "0") THEN [k \in 1..n |-> "0"]
  ELSE LET a == FInt(FMul(v, F(Pow2(n)))) IN
       [k \in 1..n |-> IF (a \div Pow2(n - k)) % 2 = 1 THEN "1" ELSE "0"]

(* c: the condition before the input was seen, c1: after (stateful kinds)   *)
CondMatch(par, c, c1, x) ==
  CASE c.k = "dum" -> "yes"
    [] c.k \in {"csr", "ubr"} ->
         YN(\A k \in 1..Len(x) : FLe(Lo(c, k), x[k]) /\ FLe(x[k], Hi(c, k)))
    [] c.k = "ell" -> Below(Dist(c, x), "1")
    [] c.k = "ter" ->
         LET b == [k \in 1..Len(x) |-> Bits(x[k], par.bits)]
         IN YN(/\ Len(c.q) = Len(x) * par.bits
               /\ \A k \in 1..Len(c.q) :
                    c.q[k] = "#" \/ c.q[k] = b[((k - 1) \div par.bits) + 1][((k - 1) % par.bits) + 1])
    [] c.k = "gp" -> Above(TreeEval(par, c.tree, x), "0.5")
    [] c.k \in {"dgp", "rdgp"} -> Above(GraphRun(par, c.G, x)[1], "0.5")
    [] c.k \in {"nn", "rnn"} ->
         IF NetPlain(c.N) THEN Above(NetRun(c.N, x)[1], "0.5") ELSE "maybe"
    [] OTHER -> "maybe"

(* generality as the system defines it                                     *)
Set2(p, k, v) == [p EXCEPT ![k] = v]
CondGeneral(par, c, d) ==
  CASE c.k \in {"csr", "ubr"} ->
         YN(\A k \in 1..Len(c.a) : FLe(Lo(c, k), Lo(d, k)) /\ FLe(Hi(d, k), Hi(c, k)))
    [] c.k = "ell" ->
         LET differ == {k \in 1..Len(c.a) : ~FEq(c.a[k], d.a[k]) \/ ~FEq(c.b[k], d.b[k])}
             t(k) == {AtMost(Dist(c, Set2(d.a, k, FAdd(d.a[k], d.b[k]))), "1"),
                      AtMost(Dist(c, Set2(d.a, k, FSub(d.a[k], d.b[k]))), "1")}
             all == UNION {t(k) : k \in differ}
         IN IF "no" \in all THEN "no" ELSE IF "maybe" \in all THEN "maybe" ELSE "yes"
    [] c.k = "ter" ->
         YN(/\ \A k \in 1..Len(c.q) : c.q[k] = "#" \/ c.q[k] = d.q[k]
            /\ \E k \in 1..Len(c.q) : c.q[k] # d.q[k])
    [] OTHER -> "no"
ActGeneral(par, a, b) == a.k = "int" /\ b.k = "int" /\ a.v = b.v

(* operators *)
RateOK(v) == FLe("0.0005", v) /\ FLe(v, "1")
InRange(par, v) == FLe(par.cmin, v) /\ FLe(v, par.cmax)
(* one position of both children holds the genes of both parents there       *)
Pair(a, b, c, d) == (c = a /\ d = b) \/ (c = b /\ d = a)
CrossConserves(par, p, q, c, d) ==
  CASE p.k \in {"csr", "ubr", "ell"} ->
         /\ Len(c.a) = Len(p.a) /\ Len(d.b) = Len(q.b)
         /\ \A k \in 1..Len(p.a) : Pair(p.a[k], q.a[k], c.a[k], d.a[k]) /\ Pair(p.b[k], q.b[k], c.b[k], d.b[k])
         /\ c.mu = p.mu /\ d.mu = q.mu
    [] p.k = "ter" ->
         /\ Len(c.q) = Len(p.q) /\ Len(d.q) = Len(q.q)
         /\ \A k \in 1..Len(p.q) : Pair(p.q[k], q.q[k], c.q[k], d.q[k])
         /\ c.mu = p.mu /\ d.mu = q.mu
    [] OTHER -> TRUE
(* c -> d by mutation *)
MutationValid(par, c, d) ==
  CASE c.k \in {"csr", "ell"} ->
         /\ Len(d.a) = par.xd /\ Len(d.b) = par.xd
         /\ \A k \in 1..par.xd : InRange(par, d.a[k])
         /\ \A k \in 1..par.xd : FLt("0", d.b[k]) /\ FFinite(d.b[k])
         /\ \A k \in 1..Len(d.mu) : RateOK(d.mu[k])
    [] c.k = "ubr" ->
         /\ Len(d.a) = par.xd /\ Len(d.b) = par.xd
         /\ \A k \in 1..par.xd : InRange(par, d.a[k]) /\ InRange(par, d.b[k])
         /\ \A k \in 1..Len(d.mu) : RateOK(d.mu[k])
    [] c.k = "ter" ->
         /\ Len(d.q) = par.xd * par.bits
         /\ \A k \in 1..Len(d.q) : d.q[k] \in {"0", "1", "#"}
         (* a mutated symbol becomes a wildcard, a wildcard becomes a symbol *)
         /\ \A k \in 1..Len(d.q) : c.q[k] # d.q[k] => (c.q[k] = "#") # (d.q[k] = "#")
         /\ \A k \in 1..Len(d.mu) : RateOK(d.mu[k])
    [] OTHER -> TRUE
(* any condition in a population *)
CondWellFormed(par, c) ==
  CASE c.k \in {"csr", "ell"} ->
         /\ Len(c.a) = par.xd /\ Len(c.b) = par.xd
         /\ \A k \in 1..par.xd : FLt("0", c.b[k]) /\ FFinite(c.a[k]) /\ FFinite(c.b[k])
         /\ \A k \in 1..Len(c.mu) : RateOK(c.mu[k])
    [] c.k = "ubr" ->
         /\ Len(c.a) = par.xd /\ Len(c.b) = par.xd
         /\ \A k \in 1..par.xd : FFinite(c.a[k]) /\ FFinite(c.b[k])
         /\ \A k \in 1..Len(c.mu) : RateOK(c.mu[k])
    [] c.k = "ter" ->
         /\ Len(c.q) = par.xd * par.bits
         /\ \A k \in 1..Len(c.q) : c.q[k] \in {"0", "1", "#"}
         /\ \A k \in 1..Len(c.mu) : RateOK(c.mu[k])
    [] c.k = "gp" -> TreeWellFormed(par, c.tree) /\ \A k \in 1..Len(c.mu) : RateOK(c.mu[k])
    [] c.k \in {"dgp", "rdgp"} -> GraphWellFormed(par, c.G)
    [] OTHER -> TRUE
(* freshly covered for input x *)
CoverGeometry(par, c, x) ==
  LET span == FAbs(FSub(par.cmax, par.cmin))
      half == FMul("0.5", span)
      hmin == FMul("0.5", par.smin)
      sp(v, lo, hi) == (FLe(lo, v) \/ FClose(lo, v)) /\ (FLe(v, hi) \/ FClose(v, hi))
  IN
  CASE c.k \in {"csr", "ell"} ->
         \A k \in 1..par.xd : c.a[k] = x[k] /\ sp(c.b[k], FMin(par.smin, span), FMax(par.smin, span))
    [] c.k = "ubr" ->
         \A k \in 1..par.xd :
            /\ sp(FSub(x[k], c.a[k]), FMin(hmin, half), FMax(hmin, half))
            /\ sp(FSub(c.b[k], x[k]), FMin(hmin, half), FMax(hmin, half))
    [] OTHER -> TRUE
(* a fresh program: no larger than the initialisation parameters allow       *)
ProgInitial(par, c) ==
  CASE c.k = "gp" -> Len(c.tree) <= par.gplen /\ Len(c.tree) <= Pow2(par.gpdep + 1) - 1
    [] OTHER -> TRUE
(* program operators on one pair of offspring: genes before, after crossover, *)
(* after mutation                                                            *)
ProgMutation(par, c, d, mu) ==
  CASE c.k = "gp" -> TreePointMutated(par, c.tree, d.tree) /\ (~mu => c.tree = d.tree)
    [] c.k \in {"dgp", "rdgp"} ->
         /\ GraphMutated(par, c.G, d.G)
         /\ (~mu => c.G.fn = d.G.fn /\ c.G.cn = d.G.cn /\ c.G.t = d.G.t)
    [] OTHER -> TRUE
=============================================================================
