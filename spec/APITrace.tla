------------------------------ MODULE APITrace ------------------------------
(***************************************************************************)
(* The Python module as a system of models, files, exports and one source   *)
(* of random numbers; checks recorded histories of calls                     *)
(* (harness/pydrive.py) against it.                                          *)
(*                                                                          *)
(* What a model is, is the outcome of its history.  Histories are terms:     *)
(* what was there before, what the random source was, which parameters were  *)
(* in effect, which sample was presented.  Terms are numbered (T); equal     *)
(* histories have the same number, so whatever was once observed of a        *)
(* history (K, KR, TL) must be observed of it again, in whichever way it is   *)
(* reached: other epoch lengths, thread counts, array layouts, callbacks,     *)
(* through a file, in another model.                                         *)
(*                                                                          *)
(* C     what each model shows                                              *)
(* hv    history of each model, gv history of the random source              *)
(* pv    history that fixes each model's predictions (memo)                  *)
(* sv    stored populations, file and ex what files and exports hold         *)
(* SC    scores still to be compared with predictions                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Loss, Callback

Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Active
VARIABLES l, D, C, hv, gv, pv, sv, file, ex, T, K, KR, TL, memo, SC, born
vars == <<l, D, C, hv, gv, pv, sv, file, ex, T, K, KR, TL, memo, SC, born>>
View == l

Chk(grps, name, cond) ==
  IF grps \cap Active # {}
  THEN IF cond THEN TRUE ELSE PrintT(<<"FAIL", grps \cap Active, name, "event", l, Trace[l].e>>) /\ FALSE
  ELSE TRUE
Every == {"rep", "data", "fit", "pure", "cb", "par", "file", "store", "json"}

ev == Trace[l]
m == ev.m
o == ev.o
Changed == DOMAIN ev.C \ {"none"}
Post == [k \in DOMAIN C \cup Changed |-> IF k \in Changed THEN ev.C[k] ELSE C[k]]
Rng(q) == {q[i] : i \in 1..Len(q)}
Only(S) == Chk(Every, "no other model is affected", Changed \subseteq S)
Bag(q) == [x \in Rng(q) |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
Core(c) == [f \in {"t", "err", "z", "n", "ms", "as", "mf", "R"} |-> c[f]]
NumOf(r) == FInt(r.s[4])
Micro(R) == FoldLeft(LAMBDA a, r : a + NumOf(r), 0, R)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Zero == "#0000000000000000"
Zeros(k) == [i \in 1..k |-> Zero]
Ds(i) == D[i + 1]

(***************************************************************************)
(* Parameters                                                               *)
(***************************************************************************)
Schedule == {"omp_num_threads", "max_trials", "perf_trials", "random_state"}
Effective(ip) == ToJson([f \in DOMAIN ip \ Schedule |-> ip[f]])
I(ip, f) == FInt(ip[f])
LossNames == <<"mae", "mse", "rmse", "log", "binary_log", "onehot", "huber">>
LossPar(ip) == [loss |-> (CHOOSE i \in 1..7 : LossNames[i] = ip.loss_func) - 1,
                huber |-> IF "huber_delta" \in DOMAIN ip THEN ip.huber_delta ELSE "1"]
Layers(p) == IF p.type \in {"neural", "rule_neural"} /\ "args" \in DOMAIN p THEN {p.args[k].type : k \in DOMAIN p.args} ELSE {}
AllLayers(ip) == Layers(ip.condition) \cup Layers(ip.prediction)
(* predictions depend on earlier inputs                                       *)
Volatile(ip) ==
  \/ (ip.condition.type \in {"dgp", "rule_dgp"} /\ ip.stateful)
  \/ AllLayers(ip) \cap {"recurrent", "lstm"} # {}
(* layers that draw random numbers inside the parallel loops                  *)
Noisy(ip) == AllLayers(ip) \cap {"dropout", "noise"} # {}

Nested == {"ea", "condition", "prediction", "action", "args"} \cup {"layer_" \o ToString(i) : i \in 0..9}
(* every given value is the reported one                                      *)
RECURSIVE Holds(_, _)
Holds(given, rep) ==
  \A f \in DOMAIN given :
    f \in DOMAIN rep /\ (IF f \in Nested THEN Holds(given[f], rep[f])
                         ELSE IF f = "random_state" THEN given[f] = "none" \/ Alike(given[f], rep[f], "1e-15")
                         ELSE Alike(given[f], rep[f], "1e-15"))
(* reports leave out what has no effect in the configuration: only what both  *)
(* show is compared                                                           *)
RECURSIVE Agree(_, _)
Agree(a, b) ==
  \A f \in DOMAIN a \cap DOMAIN b :
    IF f \in Nested THEN Agree(a[f], b[f])
    ELSE IF f = "random_state" THEN (a[f] = "none" \/ b[f] = "none" \/ a[f] = b[f]) ELSE Alike(a[f], b[f], "1e-15")
(* what is given and reported in this configuration                           *)
RECURSIVE Shown(_, _)
Shown(given, rep) ==
  \A f \in DOMAIN given : f \in DOMAIN rep =>
     (IF f \in Nested THEN Shown(given[f], rep[f])
      ELSE IF f = "random_state" THEN given[f] = "none" \/ Alike(given[f], rep[f], "1e-15")
      ELSE Alike(given[f], rep[f], "1e-15"))
(* leaves outside the given ones are as before                                *)
RECURSIVE Others(_, _, _)
Others(given, a, b) ==
  \A f \in DOMAIN a \cap DOMAIN b :
    IF f \in DOMAIN given
    THEN (f \in Nested => Others(given[f], a[f], b[f]))
    ELSE a[f] = b[f]
Hidden == {"huber_delta", "gamma", "teletransportation", "p_explore", "action", "select_size"}
H(x) == FAdd(x, "0")
Defaults ==
  [omp_num_threads |-> H("8"), pop_init |-> TRUE, max_trials |-> H("100000"), perf_trials |-> H("1000"), pop_size |-> H("2000"),
   loss_func |-> "mae", e0 |-> H("0.01"), alpha |-> H("0.1"), nu |-> H("5"), beta |-> H("0.1"), delta |-> H("0.1"), theta_del |-> H("20"),
   init_fitness |-> H("0.01"), init_error |-> H("0"), m_probation |-> H("10000"), stateful |-> TRUE, compaction |-> FALSE,
   set_subsumption |-> FALSE, theta_sub |-> H("100"), gamma |-> H("0.95"), teletransportation |-> H("50"), p_explore |-> H("0.9"),
   population_file |-> "", huber_delta |-> H("1"),
   ea |-> [select_type |-> "roulette", select_size |-> H("0.4"), theta_ea |-> H("50"), lambda |-> H("2"), p_crossover |-> H("0.8"),
           subsumption |-> FALSE, err_reduc |-> H("1"), fit_reduc |-> H("0.1"), pred_reset |-> FALSE]]
Same(a, b) == Alike(a, b, "1e-15")
RECURSIVE Default(_, _, _)
Default(given, rep, def) ==
  \A f \in DOMAIN def :
    f \in DOMAIN rep =>
      IF f = "ea" THEN Default(IF "ea" \in DOMAIN given THEN given.ea ELSE <<>>, rep.ea, def.ea)
      ELSE f \notin DOMAIN given => Same(rep[f], def[f])
Reports(c) == Agree(c.gp, c.ip) /\ DOMAIN c.ip \ Hidden \subseteq DOMAIN c.gp

(***************************************************************************)
(* Histories                                                                *)
(***************************************************************************)
Id(t0, t) == IF t \in DOMAIN t0 THEN t0[t] ELSE Cardinality(DOMAIN t0) + 1
Put(t0, t) == IF t \in DOMAIN t0 THEN t0 ELSE t0 @@ (t :> Cardinality(DOMAIN t0) + 1)
(* s: terms T, history h of the model and g of the random source              *)
Both(s, t) == [s EXCEPT !.T = Put(s.T, t), !.h = Id(s.T, t), !.g = Id(s.T, t)]
Mine(s, t) == [s EXCEPT !.T = Put(s.T, t), !.h = Id(s.T, t)]
Rand(s, t) == [s EXCEPT !.T = Put(s.T, t), !.g = Id(s.T, t)]
ParOf(s, ip) == [T |-> Put(s.T, <<"par", Effective(ip)>>), h |-> s.h, g |-> s.g, p |-> Id(s.T, <<"par", Effective(ip)>>)]
(* the driver seeds the source before the call if so told; reporting the       *)
(* parameters of a network draws from it, so it is unknown after the driver's  *)
(* observations if there is one                                                *)
Blurred == \E k \in DOMAIN C : AllLayers(C[k].ip) # {}
Begin ==
  LET s00 == [T |-> T, h |-> (IF m \in DOMAIN hv THEN hv[m] ELSE 0), g |-> gv, p |-> 0]
      s0 == IF Blurred THEN Rand(s00, <<"blur", l>>) ELSE s00
      s1 == IF o.seed > 0 THEN Rand(s0, <<"seed", o.seed>>) ELSE s0
  IN IF m \in DOMAIN C THEN ParOf(s1, C[m].ip) ELSE s1
Trial(s, x, y) == Both(s, <<"trial", s.h, s.g, s.p, x, y>>)
Shuffled(s, d) == Both(s, <<"shuf", s.h, s.g, s.p, d>>)
See(s, x) == Mine(s, <<"see", s.h, s.p, x>>)
SeeAll(s, X) == FoldLeft(LAMBDA a, x : See(a, x), s, X)

CoreOk(k0, i, c) == i \in DOMAIN k0 => k0[i].core = Core(c)
Known(k0, i, c) == IF i \in DOMAIN k0 THEN k0 ELSE k0 @@ (i :> [core |-> Core(c)])
Differs(k0, i, c) ==
  IF i \notin DOMAIN k0 THEN {} ELSE
  {f \in DOMAIN Core(c) : k0[i].core[f] # c[f]}
(* m has history i: nothing else was ever seen of it                          *)
Arrive(i) ==
  /\ Chk(Every, <<"same history, same model", Differs(K, i, Post[m])>>, CoreOk(K, i, Post[m]))
  /\ hv' = (m :> i) @@ hv
  /\ K' = IF Noisy(Post[m].ip) THEN K ELSE Known(K, i, Post[m])

(***************************************************************************)
(* Predictions and scores                                                    *)
(***************************************************************************)
Cov(c, given) == IF given = <<>> THEN Zeros(I(c.ip, "y_dim")) ELSE given
Width(c) == I(c.ip, "y_dim") * I(c.ip, "n_actions")
Repeat(c, cv) == [j \in 1..Width(c) |-> cv[((j - 1) % I(c.ip, "y_dim")) + 1]]
Near(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : FNear(a[j], b[j], "1e-9")
Losses(c, mm, sc) == [i \in 1..Len(sc.X) |-> LossOf(sc.lp, mm[<<sc.pv, sc.X[i], sc.cv>>], sc.Y[i])]
Judgeable(mm, sc) == \A i \in 1..Len(sc.X) : <<sc.pv, sc.X[i], sc.cv>> \in DOMAIN mm
Mean(q) == FDiv(FSum(q), F(Len(q)))
ScoreOk(c, mm, sc) ==
  LET L == Losses(c, mm, sc) IN
  IF sc.N = 0 \/ sc.N > Len(sc.X) THEN FNear(sc.r, Mean(L), "1e-9")
  ELSE IF sc.N <= 3 THEN \E f \in [1..sc.N -> 1..Len(L)] : FNear(sc.r, Mean([i \in 1..sc.N |-> L[f[i]]]), "1e-9")
  ELSE \E a, b \in Rng(L) : FLe(FSub(a, "1e-9"), sc.r) /\ FLe(sc.r, FAdd(b, "1e-9"))
ScoresOk(c, mm, scs) ==
  Chk({"fit", "pure", "file", "store", "json", "rep", "cb", "data", "par"}, "a score is the mean loss of the predictions", \A sc \in scs : Judgeable(mm, sc) => ScoreOk(c, mm, sc))
Score0(c, p, X, Y, cv, nn, r) == [pv |-> p, X |-> X, Y |-> Y, cv |-> cv, N |-> nn, r |-> r, lp |-> LossPar(c.ip)]
(* an empty population predicts the default                                   *)
Emptied(c, p, mm, X, cv) == IF c.z = 0 THEN [k \in {<<p, X[i], cv>> : i \in 1..Len(X)} |-> Repeat(c, cv)] @@ mm ELSE mm

Frozen(a, b) ==
  /\ a.t = b.t /\ a.err = b.err /\ a.z = b.z /\ a.n = b.n
  /\ Len(a.R) = Len(b.R) /\ \A i \in 1..Len(a.R) : a.R[i].g = b.R[i].g /\ a.R[i].s = b.R[i].s
  /\ a.ip = b.ip /\ a.gp = b.gp /\ a.M = b.M
Quiet == UNCHANGED <<D, born>>
Shape ==
  /\ Chk(Every, "the call is accepted", ev.x = "none")
  /\ Chk({"data"}, "given arrays are left alone", "kept" \in DOMAIN ev => ev.kept)
  /\ Chk(Every, "counts are true", \A k \in Changed : Post[k].z = Len(Post[k].R) /\ Post[k].n = Micro(Post[k].R))
  /\ Chk({"par", "file"}, "the model reports what is in effect", \A k \in Changed : Reports(Post[k]))

TNew ==
  /\ ev.e = "new" /\ Shape /\ Only({m})
  /\ LET c == Post[m] IN
     /\ Chk({"par"}, "given parameters are in effect", Shown(ev.P, c.ip) /\ DOMAIN ev.P \ (Hidden \cup {"ea"}) \subseteq DOMAIN c.ip)
     /\ Chk({"par"}, "parameters not given have their defaults", Default(ev.P, c.ip, Defaults))
     /\ Chk({"fit", "rep"}, "a new model is new", c.t = 0 /\ c.M["trials"] = <<>> /\ c.err = c.ip.e0)
     /\ Chk({"fit", "rep", "json"}, "the initial population is as configured",
          LET pop == I(c.ip, "pop_size") IN
          IF o.pf < 0 THEN IF c.ip.pop_init THEN c.n = pop ELSE c.z = 0
          ELSE LET e == ex[o.pf].c IN
               /\ c.n = IF c.ip.pop_init THEN pop ELSE Min2(pop, e.n)
               /\ e.n <= pop => LET A == Bag(e.R) B == Bag(c.R) IN \A x \in DOMAIN A : x \in DOMAIN B /\ B[x] >= A[x]
               /\ (e.n = pop \/ (e.n < pop /\ ~c.ip.pop_init)) => c.R = e.R)
     /\ Chk({"par"}, "without a seed there is no fixed one", o.rs < 0 => FLt(c.ip.random_state, "0"))
     /\ \E s \in {LET s0 == Rand([T |-> T, h |-> 0, g |-> gv, p |-> 0], IF o.rs < 0 THEN <<"unique", l>> ELSE <<"seed", o.rs>>)
                      s1 == ParOf(s0, c.ip) IN Both(s1, <<"cold", s1.g, s1.p>>)} :
        /\ T' = s.T /\ gv' = s.g /\ Arrive(s.h) /\ pv' = (m :> s.h) @@ pv
     /\ LET e == <<Effective(c.ip), o.rs, c.R>>
            cont == c.ip.pop_init /\ o.pf < 0 /\ o.rs >= 0 /\ c.ip.condition.type \in {"hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid"} IN
        /\ Chk({"rep"}, "another seed, another run", cont => \A b \in born : (b[1] = e[1] /\ b[2] # e[2]) => b[3] # e[3])
        /\ born' = IF cont THEN born \cup {e} ELSE born
  /\ sv' = (m :> <<>>) @@ sv
  /\ UNCHANGED <<D, file, ex, KR, TL, memo, SC>>

TPredict ==
  /\ ev.e = "predict" /\ Shape /\ Only({m})
  /\ LET c == C[m] X == Ds(o.ds).x cv == Cov(c, o.cover) vol == Volatile(c.ip) IN
     /\ Chk({"pure", "data"}, "one row per input, one value per output and action",
          ev.shape = <<Len(X), Width(c)>> /\ Len(ev.out) = Len(X) /\ \A i \in 1..Len(X) : Len(ev.out[i]) = Width(c))
     /\ Chk({"pure"}, "predicting leaves the learned model alone", Frozen(c, Post[m]))
     /\ Chk({"pure"}, "inputs matched by no rule get the default",
          c.z = 0 => \A i \in 1..Len(X) : \A j \in 1..Width(c) : FEq(ev.out[i][j], Repeat(c, cv)[j]))
     /\ Chk(Every, "equal models predict alike",
          vol \/ /\ \A i \in 1..Len(X) : <<pv[m], X[i], cv>> \in DOMAIN memo => Near(ev.out[i], memo[<<pv[m], X[i], cv>>])
                 /\ \A i, j \in 1..Len(X) : X[i] = X[j] => ev.out[i] = ev.out[j])
     /\ memo' = IF vol THEN memo
                ELSE memo @@ [k \in {<<pv[m], X[i], cv>> : i \in 1..Len(X)} |-> ev.out[CHOOSE i \in 1..Len(X) : <<pv[m], X[i], cv>> = k]]
     /\ (vol \/ ScoresOk(c, memo', {sc \in SC : sc.pv = pv[m]}))
     /\ \E s \in {SeeAll(Begin, X)} : T' = s.T /\ Arrive(s.h) /\ gv' = gv /\ pv' = IF vol THEN (m :> s.h) @@ pv ELSE pv
  /\ Quiet /\ UNCHANGED <<sv, file, ex, KR, TL, SC>>

TScore ==
  /\ ev.e = "score" /\ Shape /\ Only({m})
  /\ LET c == C[m] X == Ds(o.ds).x Y == Ds(o.ds).y cv == Cov(c, o.cover) vol == Volatile(c.ip)
         sampled == o.N > 0 /\ o.N <= Len(X)
         sc == Score0(c, pv[m], X, Y, cv, o.N, ev.r) IN
     /\ Chk({"pure"}, "scoring leaves the learned model alone", Frozen(c, Post[m]))
     /\ memo' = IF vol THEN memo ELSE Emptied(c, pv[m], memo, X, cv)
     /\ SC' = IF vol THEN SC ELSE SC \cup {sc}
     /\ (vol \/ ScoresOk(c, memo', {sc}))
     /\ \E s \in {LET b == Begin IN IF sampled THEN Both(b, <<"sample", b.h, b.g, b.p, X, o.N>>) ELSE SeeAll(b, X)} :
          T' = s.T /\ Arrive(s.h) /\ gv' = s.g /\ pv' = IF vol THEN (m :> s.h) @@ pv ELSE pv
  /\ Quiet /\ UNCHANGED <<sv, file, ex, KR, TL>>

(***************************************************************************)
(* Training                                                                 *)
(***************************************************************************)
Epochs == (o.max + o.perf - 1) \div o.perf
TrialsOf(i) == Min2(o.max - (i - 1) * o.perf, o.perf)
(* one epoch: its trials in order, then the validation rows                   *)
Epoch(s, i, d, v) ==
  LET n == TrialsOf(i)
      w0 == [s |-> s, ids |-> <<>>]
      one(w, k) ==
        LET r == (((i - 1) * o.perf + k - 1) % Len(d.x)) + 1
            t == IF o.shuffle THEN Shuffled(w.s, d) ELSE Trial(w.s, d.x[r], d.y[r])
        IN [s |-> t, ids |-> Append(w.ids, t.h)]
      w1 == FoldLeft(LAMBDA w, k : one(w, k), w0, [k \in 1..n |-> k])
      s2 == IF v = <<>> THEN w1.s ELSE SeeAll(w1.s, v.x)
  IN [s |-> s2, E |-> [ids |-> w1.ids, tr |-> w1.s.h, en |-> s2.h]]
(* keeping a copy of the population (kept epochs) draws random numbers          *)
Epochal(s, ne, d, v, kept) ==
  FoldLeft(LAMBDA a, i : LET e == Epoch(a.s, i, d, v) IN
                         [s |-> IF i \in kept THEN Rand(e.s, <<"store", e.s.g, e.s.h>>) ELSE e.s, E |-> Append(a.E, e.E)],
           [s |-> s, E |-> <<>>], [i \in 1..ne |-> i])
MetricNames == {"train", "val", "trials", "psize", "msize", "mfrac"}
Cut(q, k) == SubSeq(q, k + 1, Len(q))

(* early stopping and checkpoints, from the recorded metrics                   *)
CbOf(k) == {i \in 1..Len(o.cbs) : o.cbs[i].k = k}
Cb(k) == o.cbs[CHOOSE i \in CbOf(k) : TRUE]
TFit ==
  /\ ev.e = "fit" /\ Shape /\ Only({m})
  /\ Chk({"fit"}, "fit returns the model", ev.self)
  /\ LET c == C[m] c2 == Post[m] d == Ds(o.ds) v == IF o.val >= 0 THEN Ds(o.val) ELSE <<>>
         old == Len(c.M["trials"])
         MN == [k \in MetricNames |-> Cut(c2.M[k], old)]
         ne == Len(MN["trials"])
         t0 == IF old = 0 THEN "0" ELSE Last(c.M["trials"])
         es == CbOf("es") # {} ck == CbOf("ck") # {}
         eb == IF es THEN EsRun(Cb("es"), MN["trials"], MN[Cb("es").mon]) ELSE [stop |-> FALSE, bi |-> 0]
         restored == es /\ Cb("es").restore /\ eb.bi > 0
         keeps == IF ~restored THEN {} ELSE
                  {i \in 1..ne : EsRun(Cb("es"), SubSeq(MN["trials"], 1, i), SubSeq(MN[Cb("es").mon], 1, i)).bi = i}
         noisy == Noisy(c2.ip)
     IN
     /\ Chk({"fit", "cb"}, "earlier metrics are kept", \A k \in MetricNames : Len(c2.M[k]) = old + ne /\ SubSeq(c2.M[k], 1, old) = c.M[k])
     /\ Chk({"par", "fit"}, "training changes no parameter but those set",
          [f \in DOMAIN c2.ip \ {"max_trials", "perf_trials"} |-> c2.ip[f]] = [f \in DOMAIN c.ip \ {"max_trials", "perf_trials"} |-> c.ip[f]]
          /\ I(c2.ip, "max_trials") = o.max /\ I(c2.ip, "perf_trials") = o.perf)
     /\ Chk({"cb"}, "training ends at the right epoch", IF eb.stop THEN ne = eb.at ELSE ne = Epochs)
     /\ Chk({"fit"}, "every trial is run", es \/ ne = Epochs)
     /\ \E q \in {LET b == Begin
                      b1 == ParOf(b, c2.ip)
                      b2 == IF o.warm THEN b1 ELSE Both(b1, <<"cold", b1.g, b1.p>>)
                  IN Epochal(b2, ne, d, v, keeps)} :
        LET E == q.E
            s == IF ~restored THEN q.s
                 ELSE IF eb.bi <= ne THEN Mine(q.s, <<"restored", q.s.h, E[eb.bi].en>>) ELSE q.s
            run == FoldLeft(LAMBDA a, i : a + TrialsOf(i), 0, [i \in 1..ne |-> i])
            K2 == IF restored \/ noisy THEN K ELSE Known(K, s.h, c2)
            tl2 == TL @@ [k \in {E[i].ids[1] : i \in {j \in 1..ne : Len(E[j].ids) = 1}} |->
                            MN["train"][CHOOSE i \in 1..ne : Len(E[i].ids) = 1 /\ E[i].ids[1] = k]]
            full(i) == \A k \in 1..Len(E[i].ids) : E[i].ids[k] \in DOMAIN tl2
            W == IF "W" \in DOMAIN ev THEN ev.W ELSE <<>>
        IN
        /\ Chk({"fit", "cb"}, "trials are counted",
             \A i \in 1..ne : FEq(MN["trials"][i], FAdd(t0, F(FoldLeft(LAMBDA a, j : a + TrialsOf(j), 0, [j \in 1..i |-> j])))))
        /\ Chk({"fit"}, "the clock counts the trials", c2.t = (IF o.warm THEN c.t ELSE 0) + run)
        /\ Chk({"fit", "rep"}, "an epoch's training error is the mean loss of its trials",
             noisy \/ \A i \in 1..ne :
               /\ full(i) => FNear(MN["train"][i], Mean([k \in 1..Len(E[i].ids) |-> tl2[E[i].ids[k]]]), "1e-9")
               /\ (Len(E[i].ids) = 1 /\ E[i].ids[1] \in DOMAIN TL) => MN["train"][i] = TL[E[i].ids[1]])
        /\ Chk({"fit"}, "the running error averages the trial losses",
             (\A i \in 1..ne : Len(E[i].ids) = 1) =>
                FNear(c2.err, FoldLeft(LAMBDA a, x : FAdd(a, FMul(c2.ip.beta, FSub(x, a))), IF o.warm THEN c.err ELSE c2.ip.e0, MN["train"]), "1e-9"))
        /\ Chk({"fit"}, "without validation data its error is zero", v = <<>> => \A i \in 1..ne : FEq(MN["val"][i], "0"))
        /\ Chk({"fit", "cb"}, "an epoch's statistics are those at its end",
             /\ ~restored => FEq(MN["psize"][ne], F(c2.z))
             /\ MN["msize"][ne] = c2.ms /\ MN["mfrac"][ne] = c2.mf
             /\ noisy \/ \A i \in 1..ne : E[i].en \in DOMAIN K2 =>
                  LET k == K2[E[i].en].core IN FEq(MN["psize"][i], F(k.z)) /\ MN["msize"][i] = k.ms /\ MN["mfrac"][i] = k.mf)
        (* observed epochs *)
        /\ Chk({"cb"}, "every epoch is observed", W # <<>> => Len(W) = ne /\ \A i \in 1..ne : W[i].n = old + i /\ FEq(MN["psize"][i], F(W[i].z)))
        /\ Chk({"cb"}, "callbacks leave training alone",
             W # <<>> /\ ~noisy => \A i \in 1..Len(W) : /\ E[i].en \in DOMAIN K => K[E[i].en].core.R = W[i].R
                                             /\ E[i].en \in DOMAIN KR => KR[E[i].en] = W[i].R)
        /\ Chk({"cb"}, "callbacks leave training alone (twin)",
             noisy \/ restored \/ (s.h \in DOMAIN KR => KR[s.h] = c2.R))
        /\ Chk({"cb"}, "the population of the best epoch is restored",
             W # <<>> => IF restored THEN Bag(c2.R) = Bag(W[eb.bi].R) ELSE c2.R = W[ne].R)
        /\ (IF ck /\ W # <<>> THEN
              LET k == CkRun(Cb("ck"), MN["trials"], MN[Cb("ck").mon]) IN
              /\ Chk({"cb"}, "checkpoints are written when due, of the model at that epoch",
                   W[1].file = "" /\ \A i \in 2..ne : W[i].file = (IF k.saves[i - 1] THEN W[i - 1].d ELSE ""))
              /\ Chk({"cb"}, "the last checkpoint",
                   ev.last = (LET esFirst == o.cbs[1].k = "es" IN
                              IF ~Cb("ck").best THEN (IF restored /\ (eb.stop \/ esFirst) THEN c2.d ELSE W[ne].d)
                              ELSE IF k.saves[ne] THEN (IF restored /\ eb.stop /\ esFirst THEN c2.d ELSE W[ne].d) ELSE ""))
              /\ Chk({"cb"}, "checkpoints can be loaded", "loaded" \in DOMAIN ev => ev.loaded = ev.last)
            ELSE Chk({"cb"}, "no checkpoint without its callback", W # <<>> => ev.last = ""))
        /\ TL' = IF noisy THEN TL ELSE tl2
        /\ KR' = IF noisy THEN KR ELSE KR @@ [k \in {E[i].en : i \in 1..Len(W)} |-> W[CHOOSE i \in 1..Len(W) : E[i].en = k].R]
        /\ Chk(Every, <<"same history, same model", Differs(K, s.h, c2)>>, noisy \/ CoreOk(K, s.h, c2))
        /\ hv' = [hv EXCEPT ![m] = s.h] /\ K' = K2
        /\ T' = (IF "loaded" \in DOMAIN ev \/ noisy THEN Put(s.T, <<"unique", l>>) ELSE s.T)
        /\ gv' = (IF "loaded" \in DOMAIN ev \/ noisy THEN Id(s.T, <<"unique", l>>) ELSE s.g)
        /\ pv' = [pv EXCEPT ![m] = IF restored THEN E[eb.bi].tr ELSE E[ne].tr]
        /\ memo' = memo
        /\ SC' = IF v = <<>> \/ Volatile(c2.ip) THEN SC
                 ELSE SC \cup {Score0(c2, E[i].tr, v.x, v.y, Zeros(I(c2.ip, "y_dim")), 0, MN["val"][i]) : i \in 1..ne}
        /\ (Volatile(c2.ip) \/ ScoresOk(c2, memo, {sc \in SC' : sc.pv \in {E[i].tr : i \in 1..ne}}))
        /\ sv' = IF es /\ Cb("es").restore THEN [sv EXCEPT ![m] = <<>>] ELSE IF o.warm THEN sv ELSE [sv EXCEPT ![m] = <<>>]
  /\ Quiet /\ UNCHANGED <<file, ex>>

TRl ==
  /\ ev.e \in {"rlfit", "episode"} /\ Shape /\ Only({m})
  /\ LET c == C[m] c2 == Post[m] IN
     /\ Chk({"par"}, "learning changes no parameter", c.ip = c2.ip /\ c.gp = c2.gp)
     /\ \E s \in {LET b == Begin b1 == ParOf(b, c.ip)
                      what == IF ev.e = "rlfit" THEN ToJson(<<o.x, o.a, o.r>>) ELSE ToJson(<<o.steps, o.explore>>)
                      b2 == Both(b1, <<ev.e, b1.h, b1.g, b1.p, what>>) IN b2} :
        LET noisy == Noisy(c.ip) IN
        /\ Chk(Every, "same history, same outcome", noisy \/ (s.h \in DOMAIN TL => TL[s.h] = ToJson(ev.r)))
        /\ TL' = IF noisy \/ s.h \in DOMAIN TL THEN TL ELSE TL @@ (s.h :> ToJson(ev.r))
        /\ T' = s.T /\ gv' = s.g /\ Arrive(s.h) /\ pv' = [pv EXCEPT ![m] = s.h]
     /\ Chk({"fit"}, "the clock counts exploring updates", ev.e = "rlfit" => c2.t = c.t + 1)
  /\ Quiet /\ UNCHANGED <<sv, file, ex, KR, memo, SC>>

(***************************************************************************)
(* Files, stored populations, exports, parameters                            *)
(***************************************************************************)
TSave ==
  /\ ev.e = "save" /\ Shape /\ Only({})
  /\ Chk({"file"}, "saving alters nothing and writes the model", Post = C /\ ev.h = C[m].d)
  /\ file' = (o.f :> [c |-> C[m], h |-> hv[m], p |-> pv[m]]) @@ file
  /\ Quiet /\ UNCHANGED <<hv, gv, pv, sv, ex, T, K, KR, TL, memo, SC>>
TLoad ==
  /\ ev.e = "load" /\ Shape /\ Only({m})
  /\ LET f == file[o.f] IN
     /\ Chk({"file"}, "loading restores the saved model", Post[m].d = f.c.d /\ Core(Post[m]) = Core(f.c))
     /\ Chk({"file", "par"}, "loading restores the parameters", Post[m].ip = f.c.ip)
     /\ Chk({"file", "fit"}, "loading keeps the metrics", Post[m].M = C[m].M)
     /\ hv' = [hv EXCEPT ![m] = f.h] /\ pv' = [pv EXCEPT ![m] = f.p]
     /\ \E s \in {LET b == Begin IN Rand(b, <<"load", b.g, f.h>>)} : T' = s.T /\ gv' = s.g
  /\ Quiet /\ UNCHANGED <<sv, file, ex, K, KR, TL, memo, SC>>
TPickle ==
  /\ ev.e = "pickle" /\ Shape
  /\ LET t == "m" \o ToString(o.to) IN
     /\ Only({t})
     /\ Chk({"file"}, "unpickling restores the pickled model", Post[t].d = C[m].d /\ Core(Post[t]) = Core(C[m]) /\ Post[t].ip = C[m].ip)
     /\ Chk({"file"}, "pickling leaves nothing behind", ~ev.left)
     /\ hv' = (t :> hv[m]) @@ hv /\ pv' = (t :> pv[m]) @@ pv /\ sv' = (t :> <<>>) @@ sv
     /\ T' = Put(T, <<"unique", l>>) /\ gv' = Id(T, <<"unique", l>>)
  /\ Quiet /\ UNCHANGED <<file, ex, K, KR, TL, memo, SC>>
TStore ==
  /\ ev.e = "store" /\ Shape /\ Only({})
  /\ Chk({"store"}, "storing alters nothing", Post = C)
  /\ sv' = [sv EXCEPT ![m] = IF C[m].z = 0 THEN <<>> ELSE <<[R |-> C[m].R, h |-> hv[m], p |-> pv[m]]>>]
  /\ \E s \in {LET b == Begin IN Rand(b, <<"store", b.g, hv[m]>>)} : T' = s.T /\ gv' = s.g
  /\ Quiet /\ UNCHANGED <<hv, pv, file, ex, K, KR, TL, memo, SC>>
TRetrieve ==
  /\ ev.e = "retrieve" /\ Shape /\ Only({m})
  /\ IF sv[m] = <<>>
     THEN Chk({"store"}, "retrieving nothing changes nothing", Post = C) /\ UNCHANGED <<hv, pv, gv, T, K>>
     ELSE LET v == sv[m][1] IN
          /\ Chk({"store"}, "the stored rules are in effect", Bag(Post[m].R) = Bag(v.R))
          /\ Chk({"store"}, "nothing but the population changes",
               \A f \in DOMAIN C[m] \ {"d", "R", "n", "z"} : Post[m][f] = C[m][f])
          /\ \E s \in {Mine(Begin, <<"retrieved", hv[m], v.h>>)} : T' = s.T /\ Arrive(s.h) /\ gv' = gv
          /\ pv' = [pv EXCEPT ![m] = v.p]
  /\ sv' = [sv EXCEPT ![m] = <<>>]
  /\ Quiet /\ UNCHANGED <<file, ex, KR, TL, memo, SC>>
TExport ==
  /\ ev.e = "export" /\ Shape /\ Only({})
  /\ Chk({"json"}, "exporting alters nothing", Post = C)
  /\ ex' = (o.f :> [c |-> C[m], h |-> hv[m], p |-> pv[m]]) @@ ex
  /\ Quiet /\ UNCHANGED <<hv, gv, pv, sv, file, T, K, KR, TL, memo, SC>>
Plus(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> (IF x \in DOMAIN a THEN a[x] ELSE 0) + (IF x \in DOMAIN b THEN b[x] ELSE 0)]
(* rules after an insertion, numerosities aside                               *)
Kinds(R) == [i \in 1..Len(R) |-> <<R[i].g, [j \in 1..6 |-> IF j = 4 THEN "" ELSE R[i].s[j]], R[i].k>>]
TInsert ==
  /\ ev.e = "insert" /\ Shape /\ Only({m})
  /\ LET c == C[m] c2 == Post[m] e == ex[o.f] pop == I(c.ip, "pop_size") fits == c.n + e.c.n <= pop IN
     /\ Chk({"json"}, "inserting adds the described rules",
          IF fits THEN Bag(c2.R) = Plus(Bag(c.R), Bag(e.c.R))
          ELSE /\ c2.n = Max2(pop, IF e.c.z = 0 THEN c.n ELSE pop)
               /\ LET all == Plus(Bag(Kinds(c.R)), Bag(Kinds(e.c.R))) have == Bag(Kinds(c2.R)) IN
                  \A x \in DOMAIN have : x \in DOMAIN all /\ have[x] <= all[x])
     /\ Chk({"json"}, "rules inserted together keep their order",
          (fits /\ o.via # "each") => SelectSeq(c2.R, LAMBDA r : r \in Rng(e.c.R) /\ r \notin Rng(c.R)) = SelectSeq(e.c.R, LAMBDA r : r \notin Rng(c.R)))
     /\ Chk({"json"}, "nothing but the population changes",
          \A f \in DOMAIN c \ {"d", "R", "n", "z"} : c2[f] = c[f])
     /\ \E s \in {LET b == ParOf(Begin, c.ip) IN Both(b, <<"insert", b.h, b.g, b.p, e.h, o.via>>)} :
        /\ T' = s.T /\ gv' = s.g /\ Arrive(s.h)
        /\ pv' = [pv EXCEPT ![m] = IF c.z = 0 /\ fits THEN e.p ELSE s.h]
  /\ Quiet /\ UNCHANGED <<sv, file, ex, KR, TL, memo, SC>>
TSet ==
  /\ ev.e \in {"setp", "reimport"} /\ Shape /\ Only({m})
  /\ LET c == C[m] c2 == Post[m] kv == IF ev.e = "setp" THEN ev.P ELSE <<>> IN
     /\ Chk({"par"}, "set parameters are in effect", kv # <<>> => Shown(kv, c2.ip))
     /\ Chk({"par"}, "no other parameter changes", Others(kv, c.ip, c2.ip) /\ DOMAIN c2.ip \subseteq DOMAIN c.ip \cup Hidden)
     /\ Chk({"par"}, "an exported description reproduces itself", ev.e = "reimport" => c2.ip = c.ip)
     /\ Chk({"par"}, "setting parameters changes nothing else", \A f \in DOMAIN c \ {"d", "ip", "gp"} : c2[f] = c[f])
     /\ IF ev.e = "setp" THEN UNCHANGED <<hv, gv, T>>
        ELSE \E s \in {LET b == Begin IN Both(b, <<"reimport", b.h, b.g>>)} : T' = s.T /\ gv' = s.g /\ hv' = [hv EXCEPT ![m] = s.h]
  /\ Quiet /\ UNCHANGED <<pv, sv, file, ex, K, KR, TL, memo, SC>>
TBad ==
  /\ ev.e = "bad"
  /\ Chk({"data"}, "malformed data is rejected", ev.x # "none")
  /\ Chk({"data"}, "a rejected call changes nothing", Post = C)
  /\ UNCHANGED <<D, hv, gv, pv, sv, file, ex, T, K, KR, TL, memo, SC, born>>

TInit ==
  /\ ev.e = "Init"
  /\ D' = ev.D /\ C' = <<>> /\ hv' = <<>> /\ gv' = 0 /\ pv' = <<>> /\ sv' = <<>> /\ file' = <<>> /\ ex' = <<>>
  /\ T' = <<>> /\ K' = <<>> /\ KR' = <<>> /\ TL' = <<>> /\ memo' = <<>> /\ SC' = {} /\ born' = {}
TEnd == ev.e = "End" /\ Chk({"mem"}, "repeating a call leaves nothing behind", \A i \in 1..Len(ev.grow) : ev.grow[i][3] < 512) /\ UNCHANGED <<D, C, hv, gv, pv, sv, file, ex, T, K, KR, TL, memo, SC, born>>
Init ==
  /\ l = 1 /\ D = <<>> /\ C = <<>> /\ hv = <<>> /\ gv = 0 /\ pv = <<>> /\ sv = <<>> /\ file = <<>> /\ ex = <<>>
  /\ T = <<>> /\ K = <<>> /\ KR = <<>> /\ TL = <<>> /\ memo = <<>> /\ SC = {} /\ born = {}
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ IF ev.e = "Init" THEN TInit
     ELSE IF ev.e = "End" THEN TEnd
     ELSE /\ C' = Post
          /\ (TNew \/ TPredict \/ TScore \/ TFit \/ TRl \/ TSave \/ TLoad \/ TPickle \/ TStore \/ TRetrieve \/ TExport \/ TInsert \/ TSet \/ TBad)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
