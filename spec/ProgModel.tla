------------------------------ MODULE ProgModel ------------------------------
(***************************************************************************)
(* Program operators in full on small programs: every pair of trees with at  *)
(* most MaxNodes nodes, crossed at every pair of points, then mutated at any  *)
(* one point; every graph of two nodes, run from every initial state.         *)
(***************************************************************************)
EXTENDS GP, DGP, TLC
CONSTANTS MaxNodes, Graphs
VARIABLES ph, p, q, c, d, G, st
vars == <<ph, p, q, c, d, G, st>>

par == [gpnc |-> 1, gpin |-> 1, gpc |-> <<"0.5">>, na |-> 3, stateful |-> FALSE, dn |-> 2, dk |-> 2, din |-> 1, dt |-> 2, dec |-> 1]
Codes == {0, 3, 4, 5}
AllSeqs == UNION {[1..k -> Codes] : k \in 1..MaxNodes}
Trees == {t \in AllSeqs : TreeWellFormed(par, t)}
NoG == [n |-> 0]
GraphSet == {[n |-> 2, k |-> 2, ni |-> 1, mt |-> 2, fn |-> f, cn |-> cn, st |-> i0, i0 |-> i0, t |-> t, mu |-> <<"0.1">>] :
               f \in [1..2 -> 0..2], cn \in [1..4 -> 0..2], i0 \in [1..2 -> {"0", "0.5", "1"}], t \in 1..2}
Init ==
  /\ st = <<>>
  /\ IF Graphs THEN G \in GraphSet /\ p = <<4>> /\ q = <<4>> /\ c = p /\ d = q /\ ph = "graph"
     ELSE G = NoG /\ p \in Trees /\ q \in Trees /\ c = p /\ d = q /\ ph = "pair"
Cross ==
  /\ ph = "pair" /\ ph' = "crossed" /\ UNCHANGED <<p, q, G, st>>
  /\ \E i \in 1..Len(p), j \in 1..Len(q) :
       LET ei == SubEnd(p, i) ej == SubEnd(q, j) IN
       /\ c' = Splice(p, i, ei, SubSeq(q, j, ej - 1)) /\ d' = Splice(q, j, ej, SubSeq(p, i, ei - 1))
Mutate ==
  /\ ph = "crossed" /\ ph' = "mutated" /\ UNCHANGED <<p, q, G, st>>
  /\ \E k \in 1..Len(c), v \in Codes : (c[k] \in GPFun) = (v \in GPFun) /\ p' = p /\ d' = [c EXCEPT ![k] = v] /\ c' = c
Run ==
  /\ ph = "graph" /\ ph' = "ran" /\ UNCHANGED <<p, q, c, d, G>>
  /\ \E x \in {"0", "0.25", "1"} : st' = GraphRun(par, G, <<x>>)
Next == Cross \/ Mutate \/ Run
Spec == Init /\ [][Next]_vars

InvSwap == ph = "crossed" => TreeSwapped(p, q, c, d)
InvTrees == ph = "crossed" => TreeWellFormed(par, c) /\ TreeWellFormed(par, d)
InvMutated == ph = "mutated" => TreePointMutated(par, c, d)
InvValue == ph \in {"crossed", "mutated"} => \A x \in {"0", "-2", "1"} : FFinite(TreeEval(par, d, <<x>>))
(* nodes are neither lost nor made                                            *)
InvNodes == ph = "crossed" => \A v \in Codes :
  Cardinality({k \in 1..Len(p) : p[k] = v}) + Cardinality({k \in 1..Len(q) : q[k] = v})
  = Cardinality({k \in 1..Len(c) : c[k] = v}) + Cardinality({k \in 1..Len(d) : d[k] = v})
InvGraph == ph = "ran" => /\ \A i \in 1..2 : FLe("0", st[i]) /\ FLe(st[i], "1")
                          /\ GraphAction(par, st, 1) \in 0..(par.na - 1)
InvGraphs == ph = "graph" => GraphWellFormed(par, G)
=============================================================================
