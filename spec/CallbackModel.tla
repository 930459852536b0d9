---------------------------- MODULE CallbackModel ----------------------------
(* Every short course of a monitored metric, with every setting of the          *)
(* callbacks: the epoch-by-epoch rules of Callback.tla against what they are     *)
(* for.                                                                          *)
EXTENDS Callback, FiniteSets, TLC
CONSTANTS Epochs, Values
VARIABLES ts, vs, cb
vars == <<ts, vs, cb>>
Vals == {F(i) : i \in 1..Values}
Times == {F(i) : i \in {0, 1, 2, 4}}
Cbs == {[from |-> f, delta |-> d, patience |-> p, freq |-> q, best |-> b] : f \in Times \ {F(4)}, d \in {F(0), F(1)}, p \in Times, q \in Times, b \in BOOLEAN}
Init == ts = <<>> /\ vs = <<>> /\ cb \in Cbs
Next == /\ Len(ts) < Epochs /\ UNCHANGED cb
        /\ ts' = Append(ts, F(Len(ts) + 1)) /\ \E v \in Vals : vs' = Append(vs, v)
Spec == Init /\ [][Next]_vars
n == Len(ts)
es == EsRun(cb, ts, vs)
ck == CkRun(cb, ts, vs)
Seen(k) == {i \in 1..k : FLe(cb.from, ts[i])}
(* the epochs that improved on the best so far by more than delta               *)
RECURSIVE BestAt(_)
BestAt(k) == IF k = 0 THEN 0 ELSE LET b == BestAt(k - 1) IN
             IF k \in Seen(k) /\ (b = 0 \/ FLt(FAdd(vs[k], cb.delta), vs[b])) THEN k ELSE b
Late(k) == k \in Seen(k) /\ FLt(FAdd(ts[BestAt(k)], cb.patience), ts[k])
Stops == {k \in 1..n : Late(k)}
(* training stops at the first epoch by which patience has run out               *)
InvStop == es.stop <=> Stops # {}
InvWhen == es.stop => es.at \in Stops /\ \A k \in Stops : es.at <= k
(* and what is kept is the best epoch up to then: with no delta, the first of    *)
(* the least values                                                              *)
InvBest == LET k == IF es.stop THEN es.at ELSE n IN
  /\ es.bi = BestAt(k)
  /\ (FEq(cb.delta, "0") /\ es.bi > 0 => /\ \A i \in Seen(k) : FLe(vs[es.bi], vs[i])
                                         /\ \A i \in Seen(es.bi - 1) : FLt(vs[es.bi], vs[i]))
(* nothing is given up within its patience, nor before monitoring starts         *)
InvPatient == es.stop => /\ FLe(cb.from, ts[es.at]) /\ FLt(cb.patience, FSub(ts[es.at], ts[es.bi]))
Saves == {k \in 1..n : ck.saves[k]}
LastSave(k) == LET S == {i \in Saves : i < k} IN IF S = {} THEN "0" ELSE ts[CHOOSE i \in S : \A j \in S : j <= i]
Due == {k \in 1..n : FLe(FAdd(LastSave(k), cb.freq), ts[k])}
InvDue == Saves \subseteq Due /\ (~cb.best => Saves = Due)
(* the best checkpoint so far: successive ones improve, the last is the least     *)
(* value that was due                                                            *)
InvLeast == cb.best => /\ \A i, j \in Saves : i < j => FLt(vs[j], vs[i])
                       /\ (Due # {} => Saves # {} /\ LET k == CHOOSE i \in Saves : \A j \in Saves : j <= i IN \A i \in Due : FLe(vs[k], vs[i]))
=============================================================================
