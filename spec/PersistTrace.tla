---------------------------- MODULE PersistTrace ----------------------------
(***************************************************************************)
(* Checks recorded histories of training, saving, loading, storing,          *)
(* retrieving, exporting and inserting (harness/mdrive.c) against Persist.   *)
(*                                                                          *)
(* C     content of each model                                              *)
(* file  what each file must hold, ex what each export must hold             *)
(* hv    history of each model, as a term identity: models with the same     *)
(*       history have the same content (terms, known)                        *)
(* pv    prediction behaviour of each model: equal values predict alike      *)
(*       (memo)                                                             *)
(***************************************************************************)
EXTENDS Persist, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Active
VARIABLES l, C, file, ex, hv, pv, sv, terms, known, memo
vars == <<l, C, file, ex, hv, pv, sv, terms, known, memo>>
View == l

Chk(grps, name, cond) ==
  IF grps \cap Active # {}
  THEN IF cond THEN TRUE ELSE PrintT(<<"FAIL", grps \cap Active, name, "event", l, Trace[l].e>>) /\ FALSE
  ELSE TRUE
All == {"file", "store", "json", "net"}

ev == Trace[l]
Changed == DOMAIN ev.C \ {"none"}
Post == [m \in DOMAIN C |-> IF m \in Changed THEN ev.C[m] ELSE C[m]]
m == ev.m
(* identity of a history term, allotting a new one if needed                 *)
IdOf(t) == IF \E i \in 1..Len(terms) : terms[i] = t THEN CHOOSE i \in 1..Len(terms) : terms[i] = t ELSE Len(terms) + 1
Learn(t) == IF \E i \in 1..Len(terms) : terms[i] = t THEN terms ELSE Append(terms, t)
NewHist(t) == hv' = [hv EXCEPT ![m] = IdOf(t)] /\ terms' = Learn(t)
(* content a history leads to: fixed by the first model that had it          *)
HistOk(t) ==
  LET i == IdOf(t) IN
  i \in DOMAIN known => (known[i] = Model(Post[m]))
Remember(t) == known' = IF IdOf(t) \in DOMAIN known THEN known ELSE known @@ (IdOf(t) :> Model(Post[m]))

Frame ==
  /\ Chk(All, "no other model is affected", Changed \subseteq {m})
  /\ Chk(All, "counts are true", Counted(Post[m]))

NetFits(c) == \A i \in 1..Len(c.R) : LET w == c.R[i].w IN "N" \in DOMAIN w => w.N.no = c.par.yd /\ w.N.ni = c.par.xd
TInit ==
  /\ ev.e = "Init"
  /\ C' = [k \in Changed |-> ev.C[k]]
  /\ file' = <<>> /\ ex' = <<>> /\ memo' = {}
  /\ terms' = [i \in 1..Cardinality(Changed) |-> <<"init", i>>]
  /\ known' = <<>>
  /\ LET q == SetToSeq(Changed) IN
     /\ hv' = [k \in Changed |-> CHOOSE i \in 1..Len(q) : q[i] = k]
     /\ pv' = [k \in Changed |-> <<"h", hv'[k]>>]
  /\ sv' = [k \in Changed |-> <<"none", 0>>]
TFresh ==
  /\ ev.e = "fresh" /\ Frame
  /\ NewHist(<<"fresh", ev.k>>)
  /\ Chk({"file"}, "equal seeds give equal models", HistOk(<<"fresh", ev.k>>))
  /\ Remember(<<"fresh", ev.k>>)
  /\ pv' = [pv EXCEPT ![m] = <<"h", hv'[m]>>] /\ sv' = [sv EXCEPT ![m] = <<"none", 0>>]
  /\ UNCHANGED <<file, ex, memo>>
TTrain ==
  /\ ev.e = "train" /\ Frame
  /\ Chk({"store"}, "training leaves the stored population alone", Stored(Post[m]) = Stored(C[m]))
  /\ Chk(All, "training keeps the parameters", Post[m].par = C[m].par)
  /\ Chk({"net"}, "networks fit the model", NetFits(Post[m]))
  /\ LET t == IF Noisy(Post[m]) THEN <<"noisy", l>> ELSE <<"train", hv[m], ev.k>> IN
     /\ NewHist(t)
     /\ Chk({"file"}, "same history, same model", HistOk(t))
     /\ Remember(t)
  /\ pv' = [pv EXCEPT ![m] = <<"h", hv'[m]>>]
  /\ UNCHANGED <<file, ex, memo, sv>>
TPredict ==
  /\ ev.e = "predict" /\ Frame
  /\ Chk({"store"}, "predicting leaves the stored population alone", Stored(Post[m]) = Stored(C[m]))
  /\ LET vol == Volatile(C[m])
         t == <<"predict", hv[m], ev.k>>
         new == {<<pv[m], ev.x[i], ev.cv, ev.out[i]>> : i \in 1..Len(ev.x)}
     IN
     /\ NewHist(t)
     /\ Chk({"file"}, "same history, same model", HistOk(t))
     /\ Remember(t)
     /\ Chk(All, "equal populations predict alike",
          vol \/ \A a \in new, b \in memo : (a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3]) =>
                   \A j \in 1..Len(a[4]) : FNear(a[4][j], b[4][j], "1e-9"))
     /\ memo' = IF vol THEN memo ELSE memo \cup new
     /\ pv' = IF vol THEN [pv EXCEPT ![m] = <<"p", hv'[m]>>] ELSE pv
  /\ UNCHANGED <<file, ex, sv>>
TSave ==
  /\ ev.e = "save" /\ Frame
  /\ Chk({"file"}, "saving alters nothing", Post = C)
  /\ file' = (ev.f :> [c |-> Model(C[m]), h |-> hv[m], p |-> pv[m]]) @@ file
  /\ UNCHANGED <<ex, hv, pv, sv, terms, known, memo>>
DiffFields(a, b) == {f \in DOMAIN a \cup DOMAIN b : ~(f \in DOMAIN a /\ f \in DOMAIN b /\ a[f] = b[f])}
Differs(a, b) ==
  IF a = b THEN {} ELSE
  LET d == DiffFields(a, b) IN
  d \cup (IF "par" \in d THEN DiffFields(a.par, b.par) ELSE {})
    \cup (IF "R" \in d THEN UNION {IF i <= Len(a.R) /\ i <= Len(b.R) THEN DiffFields(a.R[i], b.R[i]) ELSE {"length"} : i \in 1..Len(a.R)} ELSE {})
TLoad ==
  /\ ev.e = "load" /\ Frame
  /\ Chk({"file"}, <<"loading restores the saved model", Differs(file[ev.f].c, Model(Post[m]))>>, Model(Post[m]) = file[ev.f].c)
  /\ Chk({"file", "store"}, "loading keeps the stored population", Stored(Post[m]) = Stored(C[m]))
  /\ hv' = [hv EXCEPT ![m] = file[ev.f].h]
  /\ pv' = [pv EXCEPT ![m] = file[ev.f].p]
  /\ UNCHANGED <<file, ex, sv, terms, known, memo>>
TStore ==
  /\ ev.e = "store" /\ Frame
  /\ Chk({"store"}, "storing alters nothing else", Model(Post[m]) = Model(C[m]))
  /\ Chk({"store"}, "storing copies every rule", SameBag(Copies(Post[m].S), Copies(C[m].R)))
  /\ sv' = [sv EXCEPT ![m] = pv[m]]
  /\ UNCHANGED <<file, ex, hv, pv, terms, known, memo>>
TRetrieve ==
  /\ ev.e = "retrieve" /\ Frame
  /\ IF C[m].S = <<>>
     THEN /\ Chk({"store"}, "retrieving nothing changes nothing", Post = C)
          /\ UNCHANGED <<hv, pv, sv, terms>>
     ELSE /\ Chk({"store"}, "the stored rules are in effect", SameBag(Post[m].R, C[m].S))
          /\ Chk({"store"}, "the snapshot is consumed", Post[m].S = <<>>)
          /\ Chk({"store"}, "nothing but the population changes",
               \A f \in DOMAIN C[m] \ {"R", "n", "z", "S", "sn"} : Post[m][f] = C[m][f])
          /\ NewHist(<<"retrieve", l>>)
          /\ pv' = [pv EXCEPT ![m] = sv[m]]
          /\ sv' = [sv EXCEPT ![m] = <<"none", 0>>]
  /\ UNCHANGED <<file, ex, known, memo>>
TExport ==
  /\ ev.e = "export" /\ Frame
  /\ Chk({"json"}, "exporting alters nothing", Post = C)
  /\ Chk({"json"}, "the description is the population", PopulationText(C[m].par, ev.J, C[m].R))
  /\ ex' = (ev.f :> [c |-> C[m], p |-> pv[m]]) @@ ex
  /\ UNCHANGED <<file, hv, pv, sv, terms, known, memo>>
TInsert ==
  /\ ev.e = "insert" /\ Frame
  /\ Chk({"json"}, "inserting adds the described rules", Inserted2(C[m].par, C[m].R, Post[m].R, ex[ev.f].c.R))
  /\ Chk({"json"}, "nothing but the population changes",
       \A f \in DOMAIN C[m] \ {"R", "n", "z"} : Post[m][f] = C[m][f])
  /\ NewHist(<<"insert", l>>)
  /\ pv' = [pv EXCEPT ![m] = IF C[m].R = <<>> /\ Num(ex[ev.f].c.R) <= C[m].par.pop THEN ex[ev.f].p ELSE <<"i", l>>]
  /\ UNCHANGED <<file, ex, sv, known, memo>>
(* a new model built with a population file; free room is filled with random  *)
(* rules if so configured                                                     *)
TConstruct ==
  /\ ev.e = "construct" /\ Frame
  /\ Chk({"json"}, "the model starts with the rules of the file", Constructed(Post[m].par, Post[m].R, ex[ev.f].c.R))
  /\ Chk({"json"}, "the model is new", Post[m].t = 0 /\ Post[m].S = <<>>)
  /\ NewHist(<<"construct", l>>)
  /\ pv' = [pv EXCEPT ![m] = IF Num(ex[ev.f].c.R) = Post[m].n THEN ex[ev.f].p ELSE <<"c", l>>]
  /\ sv' = [sv EXCEPT ![m] = <<"none", 0>>]
  /\ UNCHANGED <<file, ex, known, memo>>
(* the networks of all rules are restructured: the rules start afresh but stay *)
(* what they are                                                              *)
Afresh(a, b, c) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A f \in DOMAIN a \ {"w", "f", "e", "x", "t", "p"} : a[f] = b[f]
  /\ FEq(b.f, c.par.ifit) /\ FEq(b.e, c.par.ierr) /\ b.x = 0 /\ b.t = c.t
Depth(r) == r.w.N.nl
TRestructure ==
  /\ ev.e \in {"expand", "toclass"} /\ Frame
  /\ LET a == C[m] b == Post[m] IN
     /\ Chk({"net"}, "restructuring keeps the rules", Len(a.R) = Len(b.R) /\ \A i \in 1..Len(a.R) : Afresh(a.R[i], b.R[i], b))
     /\ Chk({"net"}, "restructuring keeps clock, statistics and stored rules", \A f \in {"t", "err", "ms", "as", "mf", "S", "n", "z"} : a[f] = b[f])
     /\ Chk({"net"}, "networks fit the model", NetFits(b))
     /\ IF ev.e = "expand"
        THEN Chk({"net"}, "every network is one deeper", a.par = b.par /\ a.pas = b.pas /\ \A i \in 1..Len(a.R) : Depth(b.R[i]) = Depth(a.R[i]) + 1)
        ELSE Chk({"net"}, "the model classifies", b.par = [a.par EXCEPT !.yd = ev.y, !.loss = 5] /\ b.pas = ev.y)
  /\ NewHist(<<"net", l>>)
  /\ pv' = [pv EXCEPT ![m] = <<"h", hv'[m]>>]
  /\ UNCHANGED <<file, ex, sv, known, memo>>
TEnd == ev.e = "End" /\ Chk({"mem"}, "everything is released", ev.leak = 0) /\ UNCHANGED <<C, file, ex, hv, pv, sv, terms, known, memo>>

Init == l = 1 /\ C = <<>> /\ file = <<>> /\ ex = <<>> /\ hv = <<>> /\ pv = <<>> /\ sv = <<>> /\ terms = <<>> /\ known = <<>> /\ memo = {}
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ IF ev.e = "Init" THEN TInit
     ELSE IF ev.e = "End" THEN TEnd
     ELSE /\ C' = Post
          /\ (TFresh \/ TTrain \/ TPredict \/ TSave \/ TLoad \/ TStore \/ TRetrieve \/ TExport \/ TInsert \/ TConstruct \/ TRestructure)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
