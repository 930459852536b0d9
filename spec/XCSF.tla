-------------------------------- MODULE XCSF --------------------------------
(***************************************************************************)
(* The XCSF learning classifier system: its state and the relation each    *)
(* critical operation must satisfy between the state before and after it.  *)
(*                                                                         *)
(* A system state s is a record                                            *)
(*   t   clock (number of EA opportunities)                                *)
(*   ms, as, mf   running statistics (match-set size, action-set size,     *)
(*                generality)                                              *)
(*   P   [n, z, i]: recorded micro count, recorded macro count, and the    *)
(*       sequence of rule identities in list order                         *)
(*   R   rule identity -> rule record                                      *)
(* and a rule is [n: numerosity, x: experience, e: error, f: fitness,      *)
(*   z: set size, t: time stamp, g: samples seen, k: samples matched,      *)
(*   m: matched flag, a: advocated action, p: current prediction,          *)
(*   c: condition, ac: action, w: predictor, hc/hp/ha: digests of the      *)
(*   condition, predictor and action genotypes].                           *)
(* D is the set of rules discarded in the current trial (numerosity 0).    *)
(*                                                                         *)
(* Every operator is a predicate over (par, before, after, observation);   *)
(* XCSFTrace binds them to recorded executions, XCSFModel checks them      *)
(* exhaustively against a constructive model of the algorithm.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Dbl, Cond, Loss, Pred

Rng(q) == {q[i] : i \in 1..Len(q)}
NoDup(q) == Cardinality(Rng(q)) = Len(q)
Live(s) == DOMAIN s.R \ {"none"}
Dead(D) == DOMAIN D \ {"none"}

(* sum of f[i] over the set S *)
SumOver(f, S) == FoldSet(LAMBDA i, acc : acc + f[i], 0, S)

Nums(s, S) == SumOver([i \in S |-> s.R[i].n], S)
Total(s) == Nums(s, Live(s))
(* the record of rule i after a step, whether it survived or was discarded *)
At(s, D, i) == IF i \in Live(s) THEN s.R[i] ELSE D[i]

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

(***************************************************************************)
(* Population accounting                                                   *)
(***************************************************************************)
Accounted(s) ==
  /\ NoDup(s.P.i)
  /\ s.P.z = Len(s.P.i)
  /\ Rng(s.P.i) = Live(s)
  /\ s.P.n = Total(s)
  /\ \A i \in Live(s) : s.R[i].n >= 1
(* a set of rules seen by an operation: recorded counts are true, members   *)
(* are distinct live rules                                                 *)
SetAccounted(s, S) ==
  /\ NoDup(S.i)
  /\ S.z = Len(S.i)
  /\ Rng(S.i) \subseteq Live(s)
  /\ S.n = Nums(s, Rng(S.i))
WithinLimit(par, s) == Total(s) <= par.pop

(* fields of a rule untouched *)
SameStats(r, q) == r.x = q.x /\ r.e = q.e /\ r.f = q.f /\ r.z = q.z /\ r.t = q.t
SameGeno(r, q) == r.hc = q.hc /\ r.hp = q.hp /\ r.ha = q.ha
SameSeen(r, q) == r.g = q.g /\ r.k = q.k /\ r.m = q.m
SameAll(r, q) == r = q

(* what operators act upon                                                *)
Genes(c) ==
  CASE c.k \in {"csr", "ubr", "ell"} -> <<c.a, c.b>>
    [] c.k = "ter" -> c.q
    [] c.k = "gp" -> c.tree
    [] OTHER -> <<>>
ActGene(ac) == CASE ac.k = "int" -> ac.v [] ac.k = "nn" -> NetGenes(ac.N) [] OTHER -> -1
CondGenes(c) == CASE c.k \in {"nn", "rnn"} -> NetGenes(c.N)
                  [] c.k \in {"dgp", "rdgp"} -> <<c.G.fn, c.G.cn, c.G.t>>
                  [] OTHER -> Genes(c)

ValidRule(par, r) ==
  /\ r.a \in 0..(par.na - 1)
  /\ r.x >= 0 /\ r.g >= r.k /\ r.k >= 0
  /\ FFinite(r.e) /\ FFinite(r.f) /\ FFinite(r.z)
  /\ FLe("0", r.f)

(***************************************************************************)
(* Matching and covering                                                   *)
(***************************************************************************)
(* rules of the population before whose condition accepts x; Amb are those  *)
(* too close to a numerical threshold to call                              *)
Accepts(par, pre, post, D, x) ==
  [i \in Live(pre) |-> CondMatch(par, pre.R[i].c, At(post, D, i).c, x)]

Advocated(R, S) == {R[i].a : i \in S}

MatchCounters(par, pre, post, D, x) ==
  \A i \in Live(pre) : LET a == pre.R[i] b == At(post, D, i) IN
    /\ b.g = a.g + 1
    /\ b.k = a.k + (IF b.m THEN 1 ELSE 0)
    /\ SameStats(a, b)
MatchGenoFrame(par, pre, post, D) ==
  \A i \in Live(pre) : LET a == pre.R[i] b == At(post, D, i) IN
    /\ CondStatic(par) => ((IF par.ctype = 5 THEN a.c = b.c ELSE a.hc = b.hc) /\ a.ha = b.ha)
    /\ a.hp = b.hp /\ a.p = b.p /\ CondGenes(a.c) = CondGenes(b.c) /\ ActGene(a.ac) = ActGene(b.ac)
MatchFlags(par, pre, post, D, x) ==
  LET acc == Accepts(par, pre, post, D, x) IN
  \A i \in Live(pre) :
     /\ acc[i] = "yes" => At(post, D, i).m
     /\ acc[i] = "no" => ~At(post, D, i).m
(* a matching rule advocates what its action part says for the input        *)
Strongest(par, out, a) == Len(out) >= par.na /\ \A k \in 1..par.na : FLe(out[k], out[a + 1])
MatchActions(par, pre, post, D, x) ==
  \A i \in Live(pre) : LET b == At(post, D, i) q == pre.R[i] IN
    b.m =>
      /\ (b.ac.k = "int" => b.a = b.ac.v)
      /\ (b.c.k = "rnn" => b.a = NetAction(par, b.c.N.out))
      /\ (b.c.k = "rdgp" => b.a = GraphAction(par, b.c.G.st, b.c.nout))
      /\ (b.ac.k = "nn" => /\ Strongest(par, b.ac.N.out, b.a)
                           /\ NetGenes(b.ac.N) = NetGenes(q.ac.N)
                           /\ (NetPlain(b.ac.N) => NearSeq(b.ac.N.out, NetRun(q.ac.N, x), "1e-9")))
MatchExact(pre, post, D, M, born) ==
  /\ NoDup(M.i)
  /\ Rng(M.i) = {i \in Live(post) : post.R[i].m /\ (i \in Live(pre) \/ i \in Rng(born))}
  /\ M.z = Len(M.i)

(* generality statistic: the most general accurate experienced rule, or    *)
(* that of a least-error experienced one                                   *)
Frac(r) == IF r.g > 0 THEN FDiv(F(r.k), F(r.g)) ELSE "0"
MFracSet(par, s) ==
  LET xp == {i \in Live(s) : FLt("1", FMul(F(s.R[i].x), par.beta))}
      ac == {i \in xp : FLt(s.R[i].e, par.e0) /\ s.R[i].k > 0}
      best == {i \in ac : \A j \in ac : FLe(Frac(s.R[j]), Frac(s.R[i]))}
      low == {i \in xp : \A j \in xp : FLe(s.R[i].e, s.R[j].e)}
  IN IF ac # {} THEN {Frac(s.R[i]) : i \in best}
     ELSE IF low # {} THEN {Frac(s.R[i]) : i \in low}
     ELSE {"0"}
Toward(par, old, new) == FAdd(old, FMul(FSub(new, old), par.beta))
MatchStatistics(par, pre, post, M) ==
  /\ FClose(post.ms, Toward(par, pre.ms, F(Len(M.i))))
  /\ \E v \in MFracSet(par, post) : FClose(post.mf, Toward(par, pre.mf, v))
  /\ post.as = pre.as /\ post.t = pre.t

(* covering *)
M0(pre, post, D) == {i \in Live(pre) : At(post, D, i).m}
Missing(par, pre, post, D) ==
  LET adv == {At(post, D, i).a : i \in M0(pre, post, D)}
  IN (0..(par.na - 1)) \ adv
CoverNeeded(par, pre, post, D, cover) ==
  cover /\ Missing(par, pre, post, D) # {}
CoverOnlyIfNeeded(par, pre, post, D, born, cover) ==
  ~CoverNeeded(par, pre, post, D, cover) =>
     /\ born = <<>> /\ Dead(D) \cap Live(pre) = {}
     /\ Live(post) = Live(pre)
     /\ post.P.i = pre.P.i
     /\ \A i \in Live(pre) : post.R[i].n = pre.R[i].n
CoverComplete(par, post, M, cover) ==
  cover => {post.R[i].a : i \in Rng(M.i)} = 0..(par.na - 1)
(* each rule created answers a missing action: those missing at first, and  *)
(* those that deletion inside covering made missing again                  *)
CoverExact(par, pre, post, D, born) ==
  born # <<>> =>
  LET miss == Missing(par, pre, post, D)
      B == Rng(born)
      first == {born[i] : i \in 1..MinOf(Cardinality(miss), Len(born))}
      gone == {D[i].a : i \in Dead(D)}
  IN /\ Len(born) >= Cardinality(miss)
     /\ {At(post, D, i).a : i \in first} = miss
     /\ \A i \in B \ first : At(post, D, i).a \in gone
     /\ (Dead(D) = {} => Len(born) = Cardinality(miss))
CoverFields(par, pre, post, D, born, x) ==
  \A k \in 1..Len(born) :
    LET r == At(post, D, born[k]) IN
    /\ (born[k] \in Live(post) => r.n = 1)
    /\ r.x = 0 /\ r.g = 0 /\ r.k = 0 /\ r.m
    /\ r.t = pre.t
    /\ FEq(r.e, par.ierr) /\ FEq(r.f, par.ifit)
(* a condition with internal state was evaluated when it was created: its      *)
(* state then says whether it matched and, for a self-contained rule, what it  *)
(* advocates                                                                   *)
Evaluated(par, c) ==
  CASE c.k \in {"dgp", "rdgp"} -> YN(FLt("0.5", c.G.st[1]))
    [] c.k \in {"nn", "rnn"} -> YN(FLt("0.5", c.N.out[1]))
    [] OTHER -> "maybe"
CoverMatches(par, post, D, born, x) ==
  \A k \in 1..Len(born) : LET r == At(post, D, born[k]) IN
     IF r.c.k \in {"dgp", "rdgp", "nn", "rnn"} THEN Evaluated(par, r.c) # "no"
     ELSE CondMatch(par, r.c, r.c, x) # "no"
CoverAction(par, post, D, born) ==
  \A k \in 1..Len(born) : LET r == At(post, D, born[k]) IN
     /\ r.a \in 0..(par.na - 1)
     /\ (r.ac.k = "int" => r.ac.v = r.a)
     /\ (r.c.k = "rdgp" => r.a = GraphAction(par, r.c.G.st, r.c.nout))
     /\ (r.c.k = "rnn" => r.a = NetAction(par, r.c.N.out))
     /\ (r.ac.k = "nn" => Strongest(par, r.ac.N.out, r.a))
(* the set-size estimates of the first wave count the match set as it grows *)
CoverSizes(par, pre, post, D, born) ==
  born # <<>> =>
  LET miss == Cardinality(Missing(par, pre, post, D))
      n0 == SumOver([i \in Live(pre) |-> IF At(post, D, i).m THEN pre.R[i].n ELSE 0], Live(pre))
  IN \A k \in 1..Len(born) :
       LET z == At(post, D, born[k]).z IN
       IF k <= miss THEN FEq(z, F(n0 + k))
       ELSE FLe("1", z) /\ FLe(z, F(n0 + Len(born)))

(***************************************************************************)
(* Numerosity and deletion                                                 *)
(***************************************************************************)
(* rules that never matched within their probation, at the time deletion   *)
(* runs: after matching has raised the counters                            *)
NeverMatched(par, r) == r.k = 0 /\ r.g > par.mprob
(* added: number of micro rules added before the limit was enforced        *)
LimitEnforced(par, pre, post, added) ==
  added > 0 => Total(post) = MinOf(MaxOf(par.pop, 0), Total(pre) + added)
DeletionOnly(pre, post, D, born) ==
  /\ Live(post) \subseteq (Live(pre) \cup born)
  /\ Dead(D) \subseteq (Live(pre) \cup born \cup Dead(D))
  /\ (Live(pre) \cup born) \subseteq (Live(post) \cup Dead(D))
  /\ Live(post) \cap Dead(D) = {}
(* before[i]: numerosity just before deletion (additions included)         *)
NeverMatchFirst(par, post, D, before, Ids) ==
  LET cand == {i \in Ids : NeverMatched(par, At(post, D, i))}
      lost == [i \in Ids |-> before[i] - At(post, D, i).n]
      tot == SumOver(lost, Ids)
  IN (tot > 0) => SumOver(lost, cand) = MinOf(tot, SumOver(before, cand))

MeanFit(s) == FDiv(FSum([k \in 1..Len(s.P.i) |-> s.R[s.P.i[k]].f]), F(Total(s)))
DelVote(par, r, avg) ==
  LET base == FMul(r.z, F(r.n)) IN
  IF r.x > par.thdel /\ FLt(r.f, FMul(FMul(par.delta, avg), F(r.n)))
  THEN FDiv(FMul(base, avg), FDiv(r.f, F(r.n)))
  ELSE base

(* structural size: positions of a condition or predictor, nodes of a tree or  *)
(* graph, active connections of a network                                     *)
Ones(q) == SumOver(q, DOMAIN q)
LayerActive(l) ==
  CASE l.ty \in {0, 7} -> Ones(l.A)
    [] l.ty = 4 -> Ones(l.il.A) + Ones(l.sl.A) + Ones(l.ol.A)
    [] l.ty = 5 -> Ones(l.uf.A) + Ones(l.ui.A) + Ones(l.ug.A) + Ones(l.uo.A) + Ones(l.wf.A) + Ones(l.wi.A) + Ones(l.wg.A) + Ones(l.wo.A)
    [] OTHER -> 0
NetActive(net) == LET z == [i \in 1..Len(net.L) |-> LayerActive(net.L[i])] IN Ones(z)
CondSize(par, c) ==
  CASE c.k \in {"csr", "ubr", "ell"} -> par.xd
    [] c.k = "ter" -> Len(c.q)
    [] c.k = "gp" -> Len(c.tree)
    [] c.k \in {"dgp", "rdgp"} -> c.G.n
    [] c.k \in {"nn", "rnn"} -> NetActive(c.N)
    [] OTHER -> 0
PredSize(par, w) ==
  CASE w.k = "con" -> par.yd
    [] w.k \in {"nlms", "rls"} -> Len(w.w)
    [] w.k = "nn" -> NetActive(w.N)
    [] OTHER -> 0
StructSize(par, r) == CondSize(par, r.c) + PredSize(par, r.w)

(***************************************************************************)
(* System prediction                                                       *)
(***************************************************************************)
PredictionArray(par, post, M, pa, nr) ==
  \A a \in 0..(par.na - 1) :
    LET who == SelectSeq(M.i, LAMBDA i : post.R[i].a = a)
        fs == [k \in 1..Len(who) |-> post.R[who[k]].f]
        w == FSum(fs)
    IN \A j \in 1..par.yd :
         LET ps == [k \in 1..Len(who) |-> post.R[who[k]].p[j]]
             v == IF FEq(w, "0") THEN "0" ELSE FDiv(FDot(fs, ps), w)
         IN FNear(pa[a * par.yd + j], v, "1e-9")
FitnessSums(par, post, M, nr) ==
  \A a \in 0..(par.na - 1) :
    LET who == SelectSeq(M.i, LAMBDA i : post.R[i].a = a)
        w == FSum([k \in 1..Len(who) |-> post.R[who[k]].f])
    IN \A j \in 1..par.yd : FClose(nr[a * par.yd + j], w)
(* building the prediction changes nothing but the members' outputs        *)
PredictionFrame(par, pre, post, M) ==
  /\ Live(pre) = Live(post) /\ pre.P = post.P
  /\ pre.t = post.t /\ pre.ms = post.ms /\ pre.mf = post.mf /\ pre.as = post.as
  /\ \A i \in Live(pre) : LET a == pre.R[i] b == post.R[i] IN
       /\ a.n = b.n /\ a.a = b.a /\ SameStats(a, b) /\ SameSeen(a, b)
       /\ a.hc = b.hc /\ a.ha = b.ha
       /\ (PredStatic(par) => a.hp = b.hp)
       /\ (i \notin Rng(M.i) => a = b)
PaAct(par, pa, a) == pa[a + 1]
BestActions(par, pa) ==
  {a \in 0..(par.na - 1) : \A b \in 0..(par.na - 1) : FLe(pa[b + 1], pa[a + 1])}
BestValue(par, pa) == pa[(CHOOSE a \in BestActions(par, pa) : TRUE) + 1]

(***************************************************************************)
(* Reinforcement of a set S (identities, recorded numerosity n) with y     *)
(***************************************************************************)
UpdErr(par, e, x1, err) ==
  IF FLt(FMul(F(x1), par.beta), "1")
  THEN FDiv(FAdd(FMul(e, F(x1 - 1)), err), F(x1))
  ELSE FAdd(e, FMul(par.beta, FSub(err, e)))
Accuracy(par, e) ==
  IF FLt(par.e0, e)
  THEN FMax(FMul(par.alpha, FPow(FDiv(e, par.e0), FNeg(par.nu))), "2.220446049250313e-16")
  ELSE "1"
(* the prediction the error is measured on: the rule's own, for the input     *)
(* being reinforced, before it learns.  Recomputed from the recorded          *)
(* predictor where the kind allows it, else as recorded                       *)
UsedPrediction(par, a, b, x, cur) ==
  IF par.ptype = 0 THEN a.p
  ELSE IF "w" \in DOMAIN a /\ Lin(par) THEN PValue(par, a.w, x)
  ELSE IF "w" \in DOMAIN a /\ NetPlain(a.w.N) THEN NetRun(a.w.N, x)
  ELSE IF cur THEN a.p ELSE b.p

UpdExperience(pre, post, D, S) ==
  \A i \in S : At(post, D, i).x = pre.R[i].x + 1
UpdError(par, pre, post, D, S, x, y, cur) ==
  \A i \in S : LET a == pre.R[i] b == At(post, D, i) IN
    FNear(b.e, UpdErr(par, a.e, a.x + 1, LossOf(par, UsedPrediction(par, a, b, x, cur), y)), "1e-9")
UpdSize(par, pre, post, D, S, n) ==
  \A i \in S : LET a == pre.R[i] b == At(post, D, i) IN
    FNear(b.z, UpdErr(par, a.z, a.x + 1, F(n)), "1e-9")
UpdFitness(par, pre, post, D, Sq) ==
  LET acc == [k \in 1..Len(Sq) |-> Accuracy(par, At(post, D, Sq[k]).e)]
      sum == FSum([k \in 1..Len(Sq) |-> FMul(acc[k], F(pre.R[Sq[k]].n))])
  IN \A k \in 1..Len(Sq) : LET a == pre.R[Sq[k]] b == At(post, D, Sq[k]) IN
       FNear(b.f, FAdd(a.f, FMul(par.beta, FSub(FDiv(FMul(acc[k], F(a.n)), sum), a.f))), "1e-9")
UpdFrame(par, pre, post, D, S) ==
  /\ \A i \in Live(pre) \ S : i \in Live(post) /\ post.R[i] = pre.R[i]
  /\ \A i \in S : LET a == pre.R[i] b == At(post, D, i) IN
        /\ a.t = b.t /\ SameSeen(a, b) /\ a.a = b.a /\ a.ha = b.ha
        /\ (~CondLearns(par) => a.hc = b.hc)
  /\ pre.t = post.t /\ pre.ms = post.ms /\ pre.mf = post.mf /\ pre.as = post.as
  /\ Live(post) \subseteq Live(pre)
(* condition learning: the centres of the set move toward the input        *)
UpdCondition(par, pre, post, D, S, x) ==
  (par.ctype \in {1, 3} /\ FLt("0", par.ceta)) =>
  \A i \in S : LET a == pre.R[i].c b == At(post, D, i).c IN
    /\ a.b = b.b
    /\ \A k \in 1..par.xd : FClose(b.a[k], FAdd(a.a[k], FMul(par.ceta, FSub(x[k], a.a[k]))))
UpdNums(par, pre, post, D, S) ==
  ~par.setsub => (Live(post) = Live(pre) /\ \A i \in Live(pre) : post.R[i].n = pre.R[i].n)

(***************************************************************************)
(* Subsumption                                                             *)
(***************************************************************************)
Eligible(par, r) == r.x > par.thsub /\ FLt(r.e, par.e0)
(* general: "yes" / "no" / "maybe"                                         *)
RuleGeneral(par, r, q) ==
  IF ActGeneral(par, r.ac, q.ac) = FALSE THEN "no" ELSE CondGeneral(par, r.c, q.c)
SetSubsumed(par, pre, post, D, Sq) ==
  LET S == Rng(Sq)
      r(i) == At(post, D, i)
      E == {i \in S : Eligible(par, r(i))}
      gone == {i \in S : i \notin Live(post)}
      gen(i, j) == RuleGeneral(par, r(i), r(j))
  IN IF ~par.setsub \/ E = {} \/ gone = {}
     THEN /\ gone = {}
          /\ \A i \in Live(pre) : i \in Live(post) /\ post.R[i].n = pre.R[i].n
          /\ (par.setsub /\ E # {}) =>
               \E s \in E : /\ \A j \in S \ {s} : gen(s, j) # "yes"
                            /\ \A c \in E \ {s} : gen(c, s) = "yes" => gen(s, c) # "no"
     ELSE \E s \in E \ gone :
            /\ \A j \in gone : gen(s, j) # "no"
            /\ \A j \in (S \ gone) \ {s} : gen(s, j) # "yes"
            /\ \A c \in E \ {s} : gen(c, s) = "yes" => gen(s, c) # "no"
            /\ post.R[s].n = pre.R[s].n + SumOver([i \in gone |-> pre.R[i].n], gone)
            /\ \A i \in Live(post) \ {s} : post.R[i].n = pre.R[i].n

(***************************************************************************)
(* The evolutionary algorithm                                              *)
(***************************************************************************)
(* mean time stamp weighted by numerosity, compared in exact arithmetic     *)
EARuns(par, pre, S, n) ==
  /\ Len(S) > 0
  /\ LET q == Rng(S)
         tot == SumOver([i \in q |-> pre.R[i].t * pre.R[i].n], q)
         gap == (pre.t + 1) * n - tot
     IN ~FLt(F(gap), FMul(par.theta, F(n)))
NOffspring(par) == 2 * ((par.lambda + 1) \div 2)

EAClock(pre, post) == post.t = pre.t + 1
EAIdle(pre, post, off) ==
  off = <<>> /\ post.R = pre.R /\ post.P = pre.P
EATimes(pre, post, D, S) ==
  \A i \in Live(pre) : At(post, D, i).t = IF i \in S THEN pre.t + 1 ELSE pre.R[i].t
EAFrame(pre, post, D, off) ==
  /\ \A i \in Live(pre) : LET a == pre.R[i] b == At(post, D, i) IN
       /\ a.x = b.x /\ a.e = b.e /\ a.f = b.f /\ a.z = b.z /\ a.p = b.p /\ a.a = b.a
       /\ SameSeen(a, b) /\ SameGeno(a, b)
  /\ pre.ms = post.ms /\ pre.mf = post.mf /\ pre.as = post.as
EAParents(par, pre, S, off) ==
  /\ Len(off) = NOffspring(par)
  /\ \A k \in 1..Len(off) : off[k].par \in S
  /\ \A k \in 1..Len(off) : off[k].par = off[IF k % 2 = 1 THEN 1 ELSE 2].par
(* which rules, in which order of preference, may absorb offspring k        *)
Mate(off, k) == off[IF k % 2 = 1 THEN k + 1 ELSE k - 1].par
Absorb(par, pre, S, off, k) ==
  LET g(i) == IF Eligible(par, pre.R[i]) THEN RuleGeneral(par, pre.R[i], off[k].g2) ELSE "no"
      own == off[k].par
      mate == Mate(off, k)
      yes == {i \in S : g(i) = "yes"}
      may == {i \in S : g(i) # "no"}
  IN IF ~off[k].x /\ ~off[k].mu THEN [must |-> TRUE, by |-> {own}]
     ELSE IF ~par.easub THEN [must |-> FALSE, by |-> {}]
     ELSE IF g(own) = "yes" THEN [must |-> TRUE, by |-> {own}]
     ELSE IF g(own) = "no" /\ g(mate) = "yes" THEN [must |-> TRUE, by |-> {mate}]
     ELSE [must |-> yes # {}, by |-> may]
Inserted(post, D, o) == o.id \in Live(post) \/ o.id \in Dead(D)
EAFates(par, pre, post, D, S, off) ==
  \A k \in 1..Len(off) :
    LET ab == Absorb(par, pre, S, off, k) IN
    IF Inserted(post, D, off[k]) THEN ~ab.must ELSE ab.by # {}
(* numerosity just before the limit is enforced, when that is determined    *)
EANums(par, pre, post, D, S, off) ==
  LET K == {k \in 1..Len(off) : ~Inserted(post, D, off[k])}
      ab == [k \in K |-> Absorb(par, pre, S, off, k)]
      sure(i) == Cardinality({k \in K : ab[k].by = {i}})
      may(i) == Cardinality({k \in K : i \in ab[k].by})
      over == Total(pre) + Len(off) > par.pop
  IN /\ \A i \in Live(pre) :
          LET d == At(post, D, i).n - pre.R[i].n IN
          /\ d <= may(i)
          /\ (~over => d >= sure(i))
     /\ (~over => Dead(D) \cap Live(pre) = {} )
     /\ Total(post) = IF over THEN par.pop ELSE Total(pre) + Len(off)
     /\ \A k \in 1..Len(off) : off[k].id \in Live(post) => post.R[off[k].id].n = 1
     /\ Live(post) \subseteq (Live(pre) \cup {off[k].id : k \in 1..Len(off)})
EAOffspring(par, pre, post, D, off) ==
  \A k \in 1..Len(off) : Inserted(post, D, off[k]) =>
    LET r == At(post, D, off[k].id)
        p1 == pre.R[off[k].par]
        p2 == pre.R[Mate(off, k)]
        pair == (k + 1) \div 2
        slack == 0..(IF pair = 1 THEN 0 ELSE 2 * (pair - 1))
        f(j1, j2) == IF off[k].x
                     THEN FMul(par.fitr, FMul(FAdd(FDiv(p1.f, F(p1.n + j1)), FDiv(p2.f, F(p2.n + j2))), "0.5"))
                     ELSE FMul(par.fitr, FDiv(p1.f, F(p1.n + j1)))
        e == IF off[k].x THEN FMul(par.errr, FMul(FAdd(p1.e, p2.e), "0.5")) ELSE FMul(par.errr, p1.e)
    IN /\ r.x = 0 /\ r.g = 0 /\ r.k = 0
       /\ r.z = p1.z
       /\ r.t = post.t
       /\ FClose(r.e, e)
       /\ \E j1 \in slack, j2 \in slack : FClose(r.f, f(j1, j2))
(* copies are exact, operators report what they did                        *)
EACopies(par, pre, off) ==
  \A k \in 1..Len(off) : LET p == pre.R[off[k].par] g == off[k].g0 IN
    /\ (IF g.c.k \in {"nn", "rnn"} THEN NetGenes(g.c.N) = NetGenes(p.c.N) ELSE g.c = p.c)
    /\ (g.ac.k = "int" => g.ac = p.ac) /\ ActGene(g.ac) = ActGene(p.ac)
EAReports(par, pre, off) ==
  \A k \in 1..Len(off) : LET o == off[k] IN
    /\ (~o.x => Genes(o.g0.c) = Genes(o.g1.c) /\ ActGene(o.g0.ac) = ActGene(o.g1.ac))
    /\ (~o.mu => Genes(o.g1.c) = Genes(o.g2.c) /\ ActGene(o.g1.ac) = ActGene(o.g2.ac))
    /\ (o.mu /\ CondGeometric(par) /\ par.ptype \in {0, 3, 4} =>
          \/ Genes(o.g1.c) # Genes(o.g2.c) \/ ActGene(o.g1.ac) # ActGene(o.g2.ac))
(* each part's operator alone: it reports no change only if its part is       *)
(* unchanged, and touches no other part                                      *)
PredGenes(w) == CASE w.k = "nn" -> NetGenes(w.N)
                  [] w.k = "nlms" -> <<w.w, w.eta>>
                  [] OTHER -> w
PartMutation(par, o) ==
  /\ (~o.cm => CondGenes(o.g0.c) = CondGenes(o.g1.c))
  /\ (o.cm /\ o.g0.c.k \in {"csr", "ubr", "ell", "ter", "gp"} => Genes(o.g0.c) # Genes(o.g1.c))
  /\ MutationValid(par, o.g0.c, o.g1.c) /\ ProgMutation(par, o.g0.c, o.g1.c, o.cm)
  /\ o.g1.w = o.g0.w /\ (o.g0.ac.k = "int" => o.g1.ac = o.g0.ac)
  /\ (~o.pm => PredGenes(o.g1.w) = PredGenes(o.g2.w))
  /\ PredMutated(par, o.g1.w, o.g2.w)
  /\ o.g2.c = o.g1.c /\ o.g2.ac = o.g1.ac
  /\ (~o.am => ActGene(o.g2.ac) = ActGene(o.g3.ac))
  /\ (o.am /\ o.g2.ac.k = "int" => ActGene(o.g2.ac) # ActGene(o.g3.ac))
  /\ (o.g3.ac.k = "int" => o.g3.ac.v \in 0..(par.na - 1))
  /\ o.g3.w = o.g2.w /\ o.g3.c = o.g2.c
PartCrossover(par, o) ==
  /\ (~o.cx => CondGenes(o.a0.c) = CondGenes(o.a1.c) /\ CondGenes(o.b0.c) = CondGenes(o.b1.c))
  /\ CrossConserves(par, o.a0.c, o.b0.c, o.a1.c, o.b1.c)
  /\ o.a1.w = o.a0.w /\ o.b1.w = o.b0.w /\ (o.a0.ac.k = "int" => o.a1.ac = o.a0.ac /\ o.b1.ac = o.b0.ac)
  /\ o.a2.c = o.a1.c /\ o.b2.c = o.b1.c
  /\ (~o.px => PredGenes(o.a1.w) = PredGenes(o.a2.w) /\ PredGenes(o.b1.w) = PredGenes(o.b2.w))
  /\ (~o.ax => ActGene(o.a1.ac) = ActGene(o.a2.ac) /\ ActGene(o.b1.ac) = ActGene(o.b2.ac))
  /\ (FEq(par.pcross, "0") => ~o.cx)
EACrossover(par, off) ==
  \A k \in {j \in 1..Len(off) : j % 2 = 1 /\ j < Len(off)} :
     CrossConserves(par, off[k].g0.c, off[k + 1].g0.c, off[k].g1.c, off[k + 1].g1.c)
     /\ (FEq(par.pcross, "0") => ~off[k].x)
EAMutation(par, off) ==
  \A k \in 1..Len(off) :
     /\ MutationValid(par, off[k].g1.c, off[k].g2.c)
     /\ (off[k].g2.ac.k = "int" => off[k].g2.ac.v \in 0..(par.na - 1))
     /\ (par.na = 1 => ActGene(off[k].g1.ac) = ActGene(off[k].g2.ac))
EAPrograms(par, off) ==
  /\ \A k \in {j \in 1..Len(off) : j % 2 = 1 /\ j < Len(off)} :
       LET p == off[k].g0.c q == off[k + 1].g0.c c == off[k].g1.c d == off[k + 1].g1.c IN
       CASE p.k = "gp" -> IF off[k].x THEN TreeSwapped(p.tree, q.tree, c.tree, d.tree)
                          ELSE c.tree = p.tree /\ d.tree = q.tree
         [] p.k \in {"dgp", "rdgp"} -> ~off[k].x /\ c = p /\ d = q
         [] OTHER -> TRUE
  /\ \A k \in 1..Len(off) : ProgMutation(par, off[k].g1.c, off[k].g2.c, off[k].mu)
(* graph conditions: node states and encoded action after the input          *)
ProgStates(par, pre, post, D, x) ==
  \A i \in Live(pre) :
    LET c == pre.R[i].c b == At(post, D, i) IN
    CASE c.k \in {"dgp", "rdgp"} ->
           LET st == GraphRun(par, c.G, x) IN
           /\ \A n \in 1..c.G.n : FNear(b.c.G.st[n], st[n], "1e-9")
           /\ b.c.G.fn = c.G.fn /\ b.c.G.cn = c.G.cn /\ b.c.G.i0 = c.G.i0 /\ b.c.G.t = c.G.t /\ b.c.G.mu = c.G.mu
           /\ (c.k = "rdgp" /\ b.m => b.a = GraphAction(par, b.c.G.st, c.nout))
      [] OTHER -> TRUE
EAPredictor(par, pre, post, D, off) ==
  \A k \in 1..Len(off) :
    LET o == off[k] p == pre.R[o.par] IN
    /\ ("w" \in DOMAIN p => PredInherit(par, p.w, o.g0.w))
    /\ PredMutated(par, o.g1.w, o.g2.w)
    /\ (Inserted(post, D, o) /\ "w" \in DOMAIN p => At(post, D, o.id).w = o.g2.w)
=============================================================================
