--------------------------------- MODULE GP ---------------------------------
(***************************************************************************)
(* Tree GP: a tree is a prefix sequence of node codes.  0..3 are the       *)
(* functions + - * /, then come the constants, then the inputs.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Dbl

GPFun == 0..3
GPTerm(par) == 4..(3 + par.gpnc + par.gpin)
Clamp(v, lo, hi) == FMin(FMax(v, lo), hi)
(* position after the subtree starting at k (0 when it runs off the end)    *)
RECURSIVE SubEnd(_, _)
SubEnd(t, k) == IF k > Len(t) \/ k = 0 THEN 0
                ELSE IF t[k] \notin GPFun THEN k + 1
                ELSE SubEnd(t, SubEnd(t, k + 1))
TreeWellFormed(par, t) ==
  /\ Len(t) >= 1
  /\ \A k \in 1..Len(t) : t[k] \in GPFun \cup GPTerm(par)
  /\ SubEnd(t, 1) = Len(t) + 1
(* value of the subtree at k and the position after it                      *)
RECURSIVE EvalAt(_, _, _, _)
EvalAt(par, t, k, x) ==
  IF t[k] >= 4 + par.gpnc THEN [v |-> x[t[k] - 3 - par.gpnc], e |-> k + 1]
  ELSE IF t[k] >= 4 THEN [v |-> par.gpc[t[k] - 3], e |-> k + 1]
  ELSE LET l == EvalAt(par, t, k + 1, x)
           r == EvalAt(par, t, l.e, x)
           a == Clamp(l.v, "-1000", "1000")
           b == Clamp(r.v, "-1000", "1000")
       IN [v |-> CASE t[k] = 0 -> FAdd(a, b)
                   [] t[k] = 1 -> FSub(a, b)
                   [] t[k] = 2 -> FMul(a, b)
                   [] t[k] = 3 -> IF FEq(b, "0") THEN a ELSE FDiv(a, b),
           e |-> r.e]
TreeEval(par, t, x) == EvalAt(par, t, 1, x).v
(* sub-tree exchange: some subtree of p and some subtree of q swap places   *)
Splice(t, i, ei, u) == SubSeq(t, 1, i - 1) \o u \o SubSeq(t, ei, Len(t))
TreeSwapped(p, q, c, d) ==
  /\ Len(c) + Len(d) = Len(p) + Len(q)
  /\ \E i \in 1..Len(p) : \E j \in 1..Len(q) :
       LET ei == SubEnd(p, i) ej == SubEnd(q, j) IN
       /\ c = Splice(p, i, ei, SubSeq(q, j, ej - 1))
       /\ d = Splice(q, j, ej, SubSeq(p, i, ei - 1))
(* point mutation: each node keeps its class                                *)
TreePointMutated(par, t, u) ==
  /\ Len(u) = Len(t)
  /\ \A k \in 1..Len(t) : (t[k] \in GPFun) = (u[k] \in GPFun)
  /\ TreeWellFormed(par, u)
=============================================================================
