------------------------------ MODULE XCSFModel ------------------------------
(***************************************************************************)
(* A constructive model of one learning system, small enough to explore in   *)
(* full: ternary rules over one-bit inputs, at most Actions actions, every    *)
(* choice the algorithm draws at random left open (which rule a covering,     *)
(* breeding or deletion produces or removes, which error a reinforcement      *)
(* yields).  Its state is that of XCSF.tla; every trial starts from any small  *)
(* population, so one trial covers one step of the induction.                 *)
(* The invariants are the relations of XCSF.tla that XCSFTrace checks on       *)
(* recorded executions: here they are shown to follow from the algorithm,      *)
(* so that they neither contradict each other nor the algorithm.              *)
(***************************************************************************)
EXTENDS XCSF, TLC
CONSTANTS Actions, Pop, MaxRules, SetSub, EaSub, Trials, Probation
VARIABLES ph, ret, s, D, pre, before, M, A, born, off, x, cover, todo
vars == <<ph, ret, s, D, pre, before, M, A, born, off, x, cover, todo>>

par == [na |-> Actions, pop |-> Pop, setsub |-> SetSub, easub |-> EaSub, ctype |-> 7, atype |-> 0, ptype |-> 0, bits |-> 1, xd |-> 1, yd |-> 1,
        beta |-> "0.1", e0 |-> "0.5", thsub |-> 0, mprob |-> Probation, theta |-> "1", lambda |-> 2, ierr |-> "0", ifit |-> "1", ceta |-> "0",
        fitr |-> "1", errr |-> "1", pcross |-> "0"]
Conds == {"0", "1", "#"}
Con(q) == [k |-> "ter", q |-> <<q>>, mu |-> <<>>]
Rule(q, a, n, ex, e, g, k, t) ==
  [n |-> n, x |-> ex, e |-> e, f |-> "1", z |-> "1", t |-> t, g |-> g, k |-> k, m |-> FALSE, a |-> a, p |-> <<>>,
   c |-> Con(q), ac |-> [k |-> "int", v |-> a], hc |-> q, hp |-> "", ha |-> a]
Sys(R, q, t) == [t |-> t, ms |-> "0", as |-> "0", mf |-> "0", R |-> R,
                 P |-> [n |-> SumOver([i \in DOMAIN R |-> R[i].n], DOMAIN R), z |-> Len(q), i |-> q]]
Id(k) == "r" \o ToString(k)
Ids == {Id(k) : k \in 1..12}
Fresh(st, d) == Id(CHOOSE k \in 1..12 : Id(k) \notin Live(st) \cup DOMAIN d /\ \A j \in 1..(k - 1) : Id(j) \in Live(st) \cup DOMAIN d)
NoRules == [i \in {} |-> 0]
With(st, i, r) == Sys((i :> r) @@ st.R, IF i \in Live(st) THEN st.P.i ELSE <<i>> \o st.P.i, st.t)
Without(st, i) == Sys([j \in Live(st) \ {i} |-> st.R[j]], SelectSeq(st.P.i, LAMBDA j : j # i), st.t)

(* any population of at most MaxRules rules within the limit                  *)
Rules0 == {Rule(q, a, n, ex, e, 2, k, t) : q \in Conds, a \in 0..(Actions - 1), n \in {1, 2}, ex \in {0, 1}, e \in {"0", "1"}, k \in {0, 1}, t \in {0}}
Init ==
  /\ \E k \in 0..MaxRules : \E R \in [{Id(j) : j \in 1..k} -> Rules0] :
       /\ s = Sys(R, [j \in 1..k |-> Id(j)], 1)
       /\ Total(s) <= Pop
       (* the order of the list matters to nothing below: one order is enough *)
  /\ ph = "idle" /\ ret = "" /\ D = NoRules /\ pre = s /\ before = NoRules /\ M = <<>> /\ A = <<>> /\ born = <<>> /\ off = <<>>
  /\ x = <<"0">> /\ cover = FALSE /\ todo = {}

Fits(r, v) == r.c.q[1] \in {"#", v}
Present ==
  /\ ph = "idle" /\ \E v \in {"0", "1"} : \E cv \in BOOLEAN :
     /\ x' = <<v>> /\ cover' = cv
     /\ s' = [s EXCEPT !.R = [i \in Live(s) |-> [s.R[i] EXCEPT !.g = @ + 1, !.k = @ + (IF Fits(s.R[i], v) THEN 1 ELSE 0), !.m = Fits(s.R[i], v)]]]
     /\ M' = SelectSeq(s.P.i, LAMBDA i : Fits(s.R[i], v))
  /\ pre' = s /\ D' = NoRules /\ born' = <<>> /\ off' = <<>> /\ A' = <<>> /\ before' = NoRules /\ todo' = {}
  /\ ph' = (IF cover' THEN "covering" ELSE "matched") /\ ret' = ""
MissingNow == (0..(Actions - 1)) \ {s.R[i].a : i \in Rng(M)}
Survey ==
  /\ ph = "covering" /\ UNCHANGED <<s, D, pre, M, A, born, off, x, cover>>
  /\ IF MissingNow = {} THEN ph' = "matched" /\ UNCHANGED <<todo, ret, before>>
     ELSE ph' = "create" /\ todo' = MissingNow /\ UNCHANGED <<ret, before>>
Size(z) == F(Nums(s, Rng(M)) + 1)
Create ==
  /\ ph = "create" /\ UNCHANGED <<pre, D, A, off, x, cover>>
  /\ IF todo = {}
     THEN /\ ph' = "limit" /\ ret' = "covering" /\ before' = [i \in Live(s) |-> s.R[i].n] /\ UNCHANGED <<s, M, born, todo>>
     ELSE LET a == CHOOSE b \in todo : \A b1 \in todo : b <= b1 i == Fresh(s, D) IN
          \E q \in {"#", x[1]} :
             /\ s' = With(s, i, [Rule(q, a, 1, 0, "0", 0, 0, s.t) EXCEPT !.m = TRUE, !.z = Size(0)])
             /\ M' = <<i>> \o M /\ born' = Append(born, i) /\ todo' = todo \ {a} /\ UNCHANGED <<ph, ret, before>>
(* deletion of one copy at a time                                              *)
Delete ==
  /\ ph = "limit" /\ UNCHANGED <<pre, before, A, born, off, x, cover, todo, ret>>
  /\ IF Total(s) <= Pop
     THEN ph' = ret /\ M' = SelectSeq(M, LAMBDA i : i \in Live(s)) /\ UNCHANGED <<s, D>>
     ELSE LET nm == {i \in Live(s) : NeverMatched(par, s.R[i])} IN
          \E i \in IF nm # {} THEN nm ELSE Live(s) :
            /\ UNCHANGED <<ph, M>>
            /\ IF s.R[i].n = 1 THEN s' = Without(s, i) /\ D' = (i :> [s.R[i] EXCEPT !.n = 0]) @@ D
               ELSE s' = With(s, i, [s.R[i] EXCEPT !.n = @ - 1]) /\ UNCHANGED D
(* an action set is reinforced                                                *)
Act ==
  /\ ph = "matched" /\ cover /\ UNCHANGED <<M, off, x, cover, todo, ret, born, before>>
  /\ \E a \in 0..(Actions - 1) : A' = SelectSeq(M, LAMBDA i : s.R[i].a = a)
  /\ pre' = s /\ D' = NoRules
  /\ \E e \in [Rng(A') -> {"0", "1"}] :
       s' = [s EXCEPT !.R = [i \in Live(s) |-> IF i \in Rng(A') THEN [s.R[i] EXCEPT !.x = @ + 1, !.e = e[i]] ELSE s.R[i]]]
  /\ ph' = (IF SetSub THEN "subsume" ELSE "updated")
Gen(i, j) == RuleGeneral(par, s.R[i], s.R[j]) = "yes"
Subsume ==
  /\ ph = "subsume" /\ UNCHANGED <<pre, M, off, x, cover, todo, ret, born, before>> /\ ph' = "updated"
  /\ LET E == SelectSeq(A, LAMBDA i : Eligible(par, s.R[i]))
         top == FoldLeft(LAMBDA acc, i : IF acc = "" \/ Gen(i, acc) THEN i ELSE acc, "", E)
         eat == {j \in Rng(A) : top # "" /\ j # top /\ Gen(top, j)} IN
     /\ A' = SelectSeq(A, LAMBDA i : i \notin eat)
     /\ D' = [j \in eat |-> [s.R[j] EXCEPT !.n = 0]] @@ D
     /\ s' = IF eat = {} THEN s
             ELSE FoldLeft(LAMBDA st, j : Without(st, j), With(s, top, [s.R[top] EXCEPT !.n = @ + SumOver([j \in eat |-> s.R[j].n], eat)]), SetToSeq(eat))
(* breeding                                                                   *)
Breed ==
  /\ ph = "updated" /\ UNCHANGED <<M, A, x, cover, todo, born>>
  /\ pre' = s /\ LET n == Nums(s, Rng(A)) IN
     IF ~EARuns(par, s, A, n)
     THEN s' = [s EXCEPT !.t = @ + 1] /\ off' = <<>> /\ ph' = "bred" /\ UNCHANGED <<D, before, ret>>
     ELSE \E p1 \in Rng(A), p2 \in Rng(A), q1 \in Conds, q2 \in Conds :
          LET s0 == [s EXCEPT !.t = @ + 1, !.R = [i \in Live(s) |-> IF i \in Rng(A) THEN [s.R[i] EXCEPT !.t = s.t + 1] ELSE s.R[i]]]
              g(q, p) == [c |-> Con(q), ac |-> s.R[p].ac]
              o(q, p, i) == [id |-> i, par |-> p, x |-> FALSE, mu |-> q # s.R[p].hc, g0 |-> g(s.R[p].hc, p), g1 |-> g(s.R[p].hc, p), g2 |-> g(q, p)]
              can(i, oo) == Eligible(par, s0.R[i]) /\ RuleGeneral(par, s0.R[i], oo.g2) = "yes"
              (* who takes in an offspring: {} means it is inserted          *)
              taker(oo, mate) == IF ~oo.mu THEN {oo.par} ELSE IF ~EaSub THEN {}
                           ELSE IF can(oo.par, oo) THEN {oo.par} ELSE IF can(mate, oo) THEN {mate} ELSE {i \in Rng(A) : can(i, oo)}
              put(st, oo, w) == IF w = "" THEN With(st, oo.id, [Rule(oo.g2.c.q[1], s.R[oo.par].a, 1, 0, s.R[oo.par].e, 0, 0, s0.t)
                                                             EXCEPT !.z = s.R[oo.par].z, !.f = FDiv(s.R[oo.par].f, F(st.R[oo.par].n))])
                                ELSE With(st, w, [st.R[w] EXCEPT !.n = @ + 1])
              i1 == Fresh(s0, D) o1 == o(q1, p1, i1)
              t1 == taker(o1, p2) IN
          \E w1 \in IF t1 = {} THEN {""} ELSE t1 :
          LET a1 == put(s0, o1, w1)
              i2 == Fresh(With(s0, i1, Rule("#", 0, 1, 0, "0", 0, 0, 0)), D) o2 == o(q2, p2, i2)
              t2 == taker(o2, p1) IN
          \E w2 \in IF t2 = {} THEN {""} ELSE t2 :
             (* the fitness of an offspring is per copy its parent had when it was made *)
             /\ s' = LET b == put(a1, o2, w2) IN
                     IF w2 = "" THEN [b EXCEPT !.R[i2].f = FDiv(s.R[p2].f, F(s.R[p2].n))] ELSE b
             /\ off' = <<o1, o2>>
             /\ before' = [i \in Live(s') |-> s'.R[i].n] /\ ph' = "limit" /\ ret' = "bred" /\ UNCHANGED D
Again == ph \in {"bred", "matched"} /\ (ph = "matched" => ~cover) /\ s.t < Trials /\ ph' = "idle" /\ D' = NoRules /\ UNCHANGED <<ret, s, pre, before, M, A, born, off, x, cover, todo>>
Next == Present \/ Survey \/ Create \/ Delete \/ Act \/ Subsume \/ Breed \/ Again
Spec == Init /\ [][Next]_vars
Bound == s.t < Trials + 1 /\ \A i \in Live(s) : s.R[i].g <= Trials + 1

MSet == [n |-> Nums(s, Rng(M)), z |-> Len(M), i |-> M]
(* P01 *)
InvAccounted == Accounted(s)
InvLimit == ph \in {"idle", "matched", "updated", "bred"} => WithinLimit(par, s)
(* once matched the match set, and after its update the action set, count live rules *)
InvSets == /\ ph = "matched" => SetAccounted(s, MSet)
           /\ ph = "updated" => Rng(M) \subseteq Live(pre) /\ SetAccounted(s, [i |-> A, z |-> Len(A), n |-> Nums(s, Rng(A))])
InvDead == Live(s) \cap Dead(D) = {} /\ \A i \in Dead(D) : D[i].n = 0
InvConserved == ph = "updated" => Total(s) = Total(pre)
(* P02 *)
InvMatch == ph = "matched" =>
  /\ MatchCounters(par, pre, s, D, x) /\ MatchFlags(par, pre, s, D, x) /\ MatchExact(pre, s, D, MSet, born) /\ MatchGenoFrame(par, pre, s, D)
(* P03 *)
InvCover == ph = "matched" =>
  /\ CoverOnlyIfNeeded(par, pre, s, D, born, cover) /\ CoverComplete(par, s, MSet, cover) /\ CoverExact(par, pre, s, D, born)
  /\ CoverFields(par, pre, s, D, born, x) /\ CoverMatches(par, s, D, born, x) /\ CoverAction(par, s, D, born) /\ CoverSizes(par, pre, s, D, born)
  /\ DeletionOnly(pre, s, D, Rng(born))
(* P06 *)
InvNeverMatched == ph = ret /\ ret # "" /\ before # NoRules =>
  NeverMatchFirst(par, s, D, before, DOMAIN before)
(* P05, P08 *)
InvUpdate == ph = "updated" =>
  /\ UpdExperience(pre, s, D, Rng(A) \cup Dead(D)) /\ UpdNums(par, pre, s, D, Rng(A))
  /\ \A i \in Live(pre) \ (Rng(A) \cup Dead(D)) : i \in Live(s) /\ s.R[i] = pre.R[i]
InvSubsume == ph = "updated" => SetSubsumed(par, pre, s, D, A \o SetToSeq(Dead(D)))
(* whoever was absorbed accepted nothing its absorber does not accept         *)
InvSuperset == ph = "updated" /\ Dead(D) # {} =>
  \E i \in Rng(A) : /\ s.R[i].n > pre.R[i].n
                    /\ \A j \in Dead(D) : s.R[i].a = D[j].a /\ \A v \in {"0", "1"} : Fits(D[j], v) => Fits(s.R[i], v)
(* P07 *)
InvBreed == ph = "bred" =>
  /\ EAClock(pre, s)
  /\ IF off = <<>> THEN pre.R = s.R
     ELSE /\ EATimes(pre, s, D, Rng(A)) /\ EAParents(par, pre, Rng(A), off) /\ EAFates(par, pre, s, D, Rng(A), off)
          /\ EANums(par, pre, s, D, Rng(A), off) /\ EAOffspring(par, pre, s, D, off) /\ EAReports(par, pre, off)
          /\ LimitEnforced(par, pre, s, 2)
=============================================================================
