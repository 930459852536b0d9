------------------------------ MODULE Callback ------------------------------
(***************************************************************************)
(* Early stopping and checkpointing, epoch by epoch: ts are the trial counts  *)
(* of the epochs, vs the monitored metric.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Dbl

EsStep(cb, a, t, v) ==
  IF a.stop \/ FLt(t, cb.from) THEN a
  ELSE LET imp == a.bi = 0 \/ FLt(v, FSub(a.best, cb.delta))
           b == [a EXCEPT !.bi = IF imp THEN a.i ELSE a.bi, !.best = IF imp THEN v ELSE a.best, !.bt = IF imp THEN t ELSE a.bt]
       IN [b EXCEPT !.stop = FLt(b.bt, FSub(t, cb.patience))]
EsRun(cb, ts, vs) ==
  FoldLeft(LAMBDA a, i : [EsStep(cb, [a EXCEPT !.i = i], ts[i], vs[i]) EXCEPT !.at = IF a.stop THEN a.at ELSE i],
           [stop |-> FALSE, bi |-> 0, best |-> "0", bt |-> "0", i |-> 0, at |-> 0], [i \in 1..Len(ts) |-> i])
CkRun(cb, ts, vs) ==
  FoldLeft(LAMBDA a, i :
     LET due == FLe(FAdd(a.st, cb.freq), ts[i])
         better == a.first \/ FLt(vs[i], a.best)
         sv0 == due /\ (~cb.best \/ better)
     IN [st |-> IF sv0 THEN ts[i] ELSE a.st, best |-> IF due /\ better THEN vs[i] ELSE a.best,
         first |-> a.first /\ ~due, saves |-> Append(a.saves, sv0)],
     [st |-> "0", best |-> "0", first |-> TRUE, saves |-> <<>>], [i \in 1..Len(ts) |-> i])
=============================================================================
