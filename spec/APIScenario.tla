---------------------------- MODULE APIScenario ----------------------------
(***************************************************************************)
(* Histories of calls of the Python module over several models, files and    *)
(* exports.  Data comes from a small pool, seeds from a smaller one, and a   *)
(* model's calls may be issued again to another model (a twin) with other     *)
(* array layouts, epoch lengths or thread counts, so that the same history   *)
(* is reached in different ways.                                             *)
(***************************************************************************)
EXTENDS ScenGen, SequencesExt
CONSTANTS MaxOps
VARIABLES cfgs, data, kind, fkind, ekind, skind, ops, n
vars == <<cfgs, data, kind, fkind, ekind, skind, ops, n>>

NM == 3
NF == 2
None == -1
Signed(z) == Real(One(-8..8), 8)

CondOf(na) ==
  CASE Profile = "json" -> {"dummy", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary", "dgp"}
    [] Profile = "cb" -> {"hyperrectangle_csr", "hyperrectangle_ubr", "ternary", "dummy"}
    [] OTHER -> {"dummy", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary", "tree_gp", "dgp", "neural"}
                \cup (IF na > 1 THEN {"rule_dgp", "rule_neural"} ELSE {})
PredOf == IF Profile = "json" THEN {"constant", "nlms_linear", "nlms_quadratic", "rls_linear"}
          ELSE {"constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic", "neural"}
Cfg(z) ==
  LET xd == One(1..3)
      na == IF Profile \in {"fit", "cb"} \/ Coin(70) THEN 1 ELSE One(2..3)
      yd == IF na > 1 THEN 1 ELSE One(1..2)
      ct == One(CondOf(na))
      par == Params(xd, yd, na)
      p == [pop_size |-> One({5, 8, 12}), condition |-> CondArgs(ct, xd, na), prediction |-> PredArgs(One(PredOf), xd, yd)] @@ par
  IN [x_dim |-> xd, y_dim |-> yd, n_actions |-> na, params |-> p]

Row(c, int) == [i \in 1..c.x_dim |-> IF int THEN Real(One(0..1), 1) ELSE Eighth(i)]
OutA(c) == IF c.params.loss_func \in {"log", "binary_log", "onehot"} THEN Hot(c.y_dim) ELSE [i \in 1..c.y_dim |-> Signed(i)]
Pool(c) ==
  LET int == Coin(20) rows == [i \in 1..5 |-> Row(c, int)] ys == [i \in 1..5 |-> OutA(c)]
      pick(k) == LET w == [j \in 1..k |-> One(1..5)] IN [x |-> [j \in 1..k |-> rows[w[j]]], y |-> [j \in 1..k |-> ys[w[j]]]]
  IN <<[x |-> rows, y |-> ys], pick(One(1..3)), pick(One(2..4))>>
NDS == 3
Ds(m) == 3 * kind[m] + One(0..(NDS - 1))
C(m) == cfgs[kind[m] + 1]
Layout(z) == IF Profile = "data" THEN One({"c", "f", "stride", "rev", "f32", "int", "list", "one", "ro"}) ELSE IF Coin(90) THEN "c" ELSE One({"f", "stride", "list"})
Seed(z) == IF Coin(75) THEN One(1..2) ELSE 0

(* a population file: what an export of the same configuration holds            *)
Files(c) == IF Profile = "json" /\ Coin(50) THEN {f \in 0..(NF - 1) : ekind[f] = c} ELSE {}
NewRs(z) == IF Profile = "par" /\ Coin(15) THEN -1 ELSE One(1..2)
New(m, c) == [op |-> "new", m |-> m, cfg |-> c, rs |-> NewRs(m), pf |-> LET fs == Files(c) IN IF fs = {} THEN None ELSE One(fs), first |-> Coin(50), omp |-> IF Profile = "rep" THEN One({1, 2, 4, 8}) ELSE 2]
Cb(v) ==
  LET mon == IF v >= 0 /\ Coin(60) THEN "val" ELSE "train"
      es == [k |-> "es", mon |-> mon, patience |-> One({0, 1, 2, 4, 6}), restore |-> Coin(60), delta |-> Real(One({0, 0, 1, 5}), 20),
             from |-> One({0, 0, 3, 6}), verbose |-> Coin(50)]
      ck == [k |-> "ck", mon |-> mon, best |-> Coin(50), freq |-> One({0, 1, 2, 3, 4, 7}), verbose |-> Coin(50)]
  IN LET r == One(1..100) IN IF r <= 40 THEN <<es>> ELSE IF r <= 75 THEN <<ck>> ELSE IF r <= 87 THEN <<ck, es>> ELSE <<es, ck>>
Fit(m) ==
  LET v == IF Coin(IF Profile = "cb" THEN 60 ELSE 35) THEN Ds(m) ELSE None IN
  [op |-> "fit", m |-> m, ds |-> Ds(m), max |-> One(IF Profile = "cb" THEN {6, 9, 12, 16} ELSE {1, 2, 3, 4, 6, 9}),
   perf |-> One(IF Profile = "cb" THEN {1, 2, 3} ELSE {1, 2, 3, 5, 20}), shuffle |-> Coin(35), warm |-> Coin(70), val |-> v,
   verbose |-> Coin(15), lx |-> Layout(1), ly |-> Layout(2), seed |-> Seed(0), reload |-> Coin(50),
   cbs |-> IF Profile = "cb" THEN Cb(v) ELSE <<>>]
CoverA(m) == IF Coin(50) THEN "none" ELSE [i \in 1..C(m).y_dim |-> Signed(i)]
Predict(m) == [op |-> "predict", m |-> m, ds |-> Ds(m), cover |-> CoverA(m), lx |-> Layout(1), ly |-> Layout(2)]
Score(m) == [op |-> "score", m |-> m, ds |-> Ds(m), N |-> One({0, 0, 0, 1, 2, 3, 9}), cover |-> CoverA(m), lx |-> Layout(1), ly |-> Layout(2), seed |-> Seed(0)]
RlFit(m) == [op |-> "rlfit", m |-> m, x |-> [i \in 1..C(m).x_dim |-> Eighth(i)], a |-> One(0..(C(m).n_actions - 1)), r |-> Signed(0), lx |-> Layout(1), seed |-> Seed(0)]
Episode(m) ==
  LET k == One(1..4) ends == Coin(80) IN
  [op |-> "episode", m |-> m, explore |-> Coin(70), lx |-> Layout(1), seed |-> Seed(0),
   steps |-> [i \in 1..k |-> [x |-> [j \in 1..C(m).x_dim |-> Eighth(j)], r |-> Real(One({0, 0, 8, 4}), 8), done |-> ends /\ i = k]]]
Train(m) == IF C(m).n_actions = 1 THEN Fit(m) ELSE IF Coin(50) THEN RlFit(m) ELSE Episode(m)
BadSup == {"fit_xcols", "fit_ycols", "fit_rows", "fit_rows2", "fit_3d", "fit_y3d", "fit_x1d", "fit_empty", "fit_str", "fit_scalar",
           "val_xcols", "val_rows", "val_ycols", "val_three", "score_cols", "score_ycols", "score_rows", "score_empty", "score_cover",
           "fit_x1row", "fit_y1row", "fit_y1d", "val_x1row", "score_x1row", "score_y1row"}
BadAny == {"predict_cols", "predict_3d", "predict_scalar", "predict_1d", "cover_len", "cover_2d"}
BadRl == {"rl_long", "rl_short", "rl_2d", "rl_wide", "rl_action", "rl_neg", "dec_long"}
Bad(m) == [op |-> "bad", m |-> m, k |-> One(BadAny \cup IF C(m).n_actions = 1 THEN BadSup ELSE BadRl), warm |-> Coin(50)]
KV(m) ==
  LET u == One(1..16) IN
  CASE u = 1 -> [beta |-> Real(One(1..9), 10)] [] u = 2 -> [alpha |-> Real(One(1..9), 10)] [] u = 3 -> [e0 |-> Real(One(1..9), 100)]
    [] u = 4 -> [nu |-> One(1..5)] [] u = 5 -> [delta |-> Real(One(1..9), 10)] [] u = 6 -> [theta_del |-> One(0..30)]
    [] u = 7 -> [theta_sub |-> One(0..30)] [] u = 8 -> [init_error |-> Real(One(0..9), 10)] [] u = 9 -> [m_probation |-> One(1..20)]
    [] u = 10 -> [compaction |-> Coin(50)] [] u = 11 -> [set_subsumption |-> Coin(50), stateful |-> Coin(50)]
    [] u = 12 -> [ea |-> [lambda |-> One({2, 4})]] [] u = 13 -> [init_fitness |-> Real(One(1..9), 10), omp_num_threads |-> One(1..4)]
    [] u = 14 -> [ea |-> [theta_ea |-> One(0..20), p_crossover |-> Real(One(0..10), 10), select_type |-> One({"roulette", "tournament"})]]
    [] u = 15 -> IF C(m).n_actions > 1 THEN [gamma |-> Real(One(0..10), 10), p_explore |-> Real(One(0..10), 10)] ELSE [beta |-> "0.3", nu |-> 3]
    [] OTHER -> [max_trials |-> One(1..100), perf_trials |-> One(1..100)]
SetP(m) == [op |-> "setp", m |-> m, kv |-> KV(m)]

Issue(q) == ops' = ops \o q
Alive == {m \in 0..(NM - 1) : kind[m] # None}
(* calls issued to a model since it was built, as long as they can be repeated *)
Repeatable == {"new", "fit", "predict", "score", "setp", "rlfit", "episode", "store", "retrieve", "bad", "reimport"}
Since(m) ==
  LET idx == {i \in 1..Len(ops) : ops[i].m = m}
      born == {i \in idx : ops[i].op = "new"}
      b == IF born = {} THEN 0 ELSE CHOOSE i \in born : \A j \in born : j <= i
      later == {i \in idx : i >= b}
      stop == {i \in later : ops[i].op \notin Repeatable}
      good == {i \in later : \A s \in stop : i < s}
      touched == {i \in 1..Len(ops) : ops[i].op = "pickle" /\ "to" \in DOMAIN ops[i] /\ ops[i].to = m /\ i > b}
  IN IF b = 0 \/ touched # {} THEN <<>> ELSE [k \in 1..Cardinality(good) |-> ops[CHOOSE i \in good : Cardinality({j \in good : j <= i}) = k]]
Vary(o, m) ==
  LET a == [o EXCEPT !.m = m] IN
  CASE o.op = "new" /\ Profile = "rep" -> [a EXCEPT !.omp = One({1, 2, 4, 8})]
    [] o.op = "new" -> [a EXCEPT !.pf = None]
    [] o.op = "fit" /\ Profile \in {"fit", "rep"} -> [a EXCEPT !.perf = One({1, 2, 3, 5, 20})]
    [] o.op = "fit" /\ Profile = "cb" -> [a EXCEPT !.cbs = IF Coin(50) THEN <<>> ELSE a.cbs]
    [] o.op \in {"fit", "predict", "score"} /\ Profile = "data" -> [a EXCEPT !.lx = Layout(1), !.ly = Layout(2)]
    [] o.op \in {"rlfit", "episode"} /\ Profile = "data" -> [a EXCEPT !.lx = Layout(1)]
    [] OTHER -> a
Same == UNCHANGED <<cfgs, data, kind, fkind, ekind, skind>>

DoNew(m) == \E c \in {One(0..(Len(cfgs) - 1))} :
  Issue(<<New(m, c)>>) /\ kind' = [kind EXCEPT ![m] = c] /\ skind' = [skind EXCEPT ![m] = None] /\ UNCHANGED <<cfgs, data, fkind, ekind>>
DoTwin(m) == \E a \in {One(Alive)}, k \in {One(4..10)} :
  LET q == Since(a) IN
  IF Len(q) < 2 \/ a = m THEN DoNew(m)
  ELSE /\ Issue([i \in 1..(IF Len(q) < k THEN Len(q) ELSE k) |-> Vary(q[i], m)])
       /\ kind' = [kind EXCEPT ![m] = q[1].cfg] /\ skind' = [skind EXCEPT ![m] = q[1].cfg] /\ UNCHANGED <<cfgs, data, fkind, ekind>>
DoTrain(m) == Issue(<<Train(m)>>) /\ Same
DoPredict(m) == Issue(<<Predict(m)>>) /\ Same
(* predictions of rows also scored, so that the score can be judged          *)
DoScore(m) == \E s \in {Score(m)} :
  /\ IF C(m).n_actions = 1
     THEN Issue(IF Coin(60) THEN <<Predict(m) @@ [z |-> 0], s, [op |-> "predict", m |-> m, ds |-> s.ds, cover |-> s.cover, lx |-> Layout(1), ly |-> Layout(2)]>> ELSE <<s>>)
     ELSE Issue(<<Predict(m)>>)
  /\ Same
DoSave(m) == \E f \in {One(0..(NF - 1))} :
  Issue(<<[op |-> "save", m |-> m, f |-> f]>>) /\ fkind' = [fkind EXCEPT ![f] = kind[m]] /\ UNCHANGED <<cfgs, data, kind, ekind, skind>>
DoLoad(m) == \E f \in {One(0..(NF - 1))} :
  IF fkind[f] # None /\ skind[m] \in {None, fkind[f]}
  THEN Issue(<<[op |-> "load", m |-> m, f |-> f]>>) /\ kind' = [kind EXCEPT ![m] = fkind[f]] /\ UNCHANGED <<cfgs, data, fkind, ekind, skind>>
  ELSE DoTrain(m)
DoPickle(m) == \E t \in {One(0..(NM - 1))} :
  IF t = m THEN DoTrain(m)
  ELSE Issue(<<[op |-> "pickle", m |-> m, to |-> t]>>) /\ kind' = [kind EXCEPT ![t] = kind[m]] /\ skind' = [skind EXCEPT ![t] = None] /\ UNCHANGED <<cfgs, data, fkind, ekind>>
DoStore(m) == Issue(<<[op |-> "store", m |-> m]>>) /\ skind' = [skind EXCEPT ![m] = kind[m]] /\ UNCHANGED <<cfgs, data, kind, fkind, ekind>>
DoRetrieve(m) == Issue(<<[op |-> "retrieve", m |-> m]>>) /\ skind' = [skind EXCEPT ![m] = None] /\ UNCHANGED <<cfgs, data, kind, fkind, ekind>>
DoExport(m) == \E f \in {One(0..(NF - 1))} :
  Issue(<<[op |-> "export", m |-> m, f |-> f, via |-> One({"file", "text"})]>>) /\ ekind' = [ekind EXCEPT ![f] = kind[m]] /\ UNCHANGED <<cfgs, data, kind, fkind, skind>>
DoInsert(m) == \E f \in {One(0..(NF - 1))} :
  IF ekind[f] # None /\ ekind[f] = kind[m] THEN Issue(<<[op |-> "insert", m |-> m, f |-> f, via |-> One({"file", "text", "each"}), seed |-> Seed(0)]>>) /\ Same
  ELSE DoExport(m)
DoSetP(m) == Issue(<<SetP(m)>>) /\ Same
DoReimport(m) == Issue(<<[op |-> "reimport", m |-> m]>>) /\ Same
DoBad(m) == Issue(<<Bad(m)>>) /\ Same

Init == cfgs = <<>> /\ data = <<>> /\ n = -1 /\ ops = <<>> /\ kind = <<>> /\ fkind = <<>> /\ ekind = <<>> /\ skind = <<>>
Configure ==
  /\ n = -1 /\ n' = 0 /\ ops' = <<>>
  /\ cfgs' = (LET a == Cfg(1) b == Cfg(2) IN IF Coin(60) THEN <<a>> ELSE <<a, b>>)
  /\ data' = (LET p == Pool(cfgs'[1]) IN IF Len(cfgs') = 1 THEN p ELSE p \o Pool(cfgs'[2]))
  /\ kind' = [m \in 0..(NM - 1) |-> None]
  /\ fkind' = [f \in 0..(NF - 1) |-> None] /\ ekind' = [f \in 0..(NF - 1) |-> None]
  /\ skind' = [m \in 0..(NM - 1) |-> None]
(* weights: train, predict, score, new, twin, then the profile's own calls    *)
Step(m) ==
  \E r \in {One(1..100)} :
  IF Alive = {} THEN DoNew(m)
  ELSE IF r <= 14 THEN DoTwin(m)
  ELSE IF kind[m] = None THEN DoNew(m)
  ELSE IF r <= 16 THEN DoNew(m)
  ELSE IF r <= (CASE Profile = "cb" -> 80 [] Profile \in {"fit", "rep"} -> 58 [] OTHER -> 40) THEN DoTrain(m)
  ELSE IF r <= (CASE Profile = "cb" -> 90 [] Profile \in {"rep", "fit"} -> 66 [] OTHER -> 52) THEN DoPredict(m)
  ELSE IF r <= (CASE Profile = "cb" -> 92 [] Profile \in {"rep", "fit", "pure"} -> 84 [] OTHER -> 60) THEN DoScore(m)
  ELSE CASE Profile \in {"rep", "fit", "pure", "cb"} -> (IF r % 3 = 0 THEN DoSave(m) ELSE IF r % 3 = 1 THEN DoLoad(m) ELSE DoPredict(m))
         [] Profile = "data" -> (IF r <= 92 THEN DoBad(m) ELSE DoPredict(m))
         [] Profile = "file" -> (IF r <= 74 THEN DoSave(m) ELSE IF r <= 88 THEN DoLoad(m) ELSE IF r <= 96 THEN DoPickle(m) ELSE DoSetP(m))
         [] Profile = "store" -> (IF r <= 80 THEN DoStore(m) ELSE DoRetrieve(m))
         [] Profile = "json" -> (IF r <= 78 THEN DoExport(m) ELSE DoInsert(m))
         [] Profile = "par" -> (IF r <= 82 THEN DoSetP(m) ELSE IF r <= 88 THEN DoReimport(m) ELSE IF r <= 93 THEN DoSave(m) ELSE IF r <= 97 THEN DoLoad(m) ELSE DoPickle(m))
         [] OTHER -> DoPredict(m)
Next ==
  \/ Configure
  \/ /\ n >= 0 /\ n < MaxOps
     /\ \E m \in {One(0..(NM - 1))} : Step(m)
     /\ n' = Len(ops')
     /\ (n' >= MaxOps => PrintT("SCN " \o ToJson([cfgs |-> cfgs, data |-> data, ops |-> ops'])))
Spec == Init /\ [][Next]_vars
=============================================================================
