------------------------------ MODULE OpsModel ------------------------------
(***************************************************************************)
(* Rule conditions on a small grid, in full: any two conditions of a kind,   *)
(* crossed gene by gene in every way.  What one condition being more general  *)
(* than another means for the inputs they accept, and what crossover keeps.   *)
(***************************************************************************)
EXTENDS Cond, TLC
CONSTANTS Kind, Grid, Dim
VARIABLES ph, p, q, c, d
vars == <<ph, p, q, c, d>>

par == [ctype |-> 0, bits |-> 1, xd |-> Dim, cmin |-> "0", cmax |-> "1", smin |-> "0.1", na |-> 1]
Points == {F(i) : i \in 0..Grid}            \* the grid is 0..Grid in steps of one half
Half(i) == FDiv(F(i), "2")
Coord == {Half(i) : i \in 0..Grid}
Inputs == [1..Dim -> {Half(i) : i \in 0..(2 * Grid)}]
Conds ==
  CASE Kind = "ter" -> {[k |-> "ter", q |-> w, mu |-> <<>>] : w \in [1..Dim -> {"0", "1", "#"}]}
    [] Kind = "csr" -> {[k |-> "csr", a |-> a, b |-> b, mu |-> <<>>] : a \in [1..Dim -> Coord], b \in [1..Dim -> Coord \ {Half(0)}]}
    [] Kind = "ell" -> {[k |-> "ell", a |-> a, b |-> b, mu |-> <<>>] : a \in [1..Dim -> Coord], b \in [1..Dim -> Coord \ {Half(0)}]}
    [] Kind = "ubr" -> {[k |-> "ubr", a |-> a, b |-> b, mu |-> <<>>] : a \in [1..Dim -> Coord], b \in [1..Dim -> Coord]}
Xs == IF Kind = "ter" THEN [1..Dim -> {"0", "1"}] ELSE Inputs
Yes(e, x) == CondMatch(par, e, e, x) = "yes"
No(e, x) == CondMatch(par, e, e, x) = "no"

Init == ph = "pair" /\ p \in Conds /\ q \in Conds /\ c = p /\ d = q
(* any subset of the genes is exchanged                                       *)
Genes(e) == IF Kind = "ter" THEN e.q ELSE e.a \o e.b
Put(e, g) == IF Kind = "ter" THEN [e EXCEPT !.q = g] ELSE [e EXCEPT !.a = SubSeq(g, 1, Dim), !.b = SubSeq(g, Dim + 1, 2 * Dim)]
Cross ==
  /\ ph = "pair" /\ ph' = "crossed" /\ UNCHANGED <<p, q>>
  /\ \E S \in SUBSET (1..Len(Genes(p))) :
       /\ c' = Put(p, [i \in 1..Len(Genes(p)) |-> IF i \in S THEN Genes(q)[i] ELSE Genes(p)[i]])
       /\ d' = Put(q, [i \in 1..Len(Genes(p)) |-> IF i \in S THEN Genes(p)[i] ELSE Genes(q)[i]])
Next == Cross
Spec == Init /\ [][Next]_vars

(* whoever is more general accepts whatever the other accepts; for            *)
(* ellipsoids, as the system defines it, the tips of the other's axes          *)
InvSuperset ==
  (ph = "pair" /\ CondGeneral(par, p, q) = "yes" /\ Kind # "ell") => \A x \in Xs : Yes(q, x) => Yes(p, x)
InvTips ==
  (ph = "pair" /\ CondGeneral(par, p, q) = "yes" /\ Kind = "ell" /\ p # q) =>
     \A k \in 1..Dim : p.a[k] # q.a[k] \/ p.b[k] # q.b[k] =>
        /\ FLe(Dist(p, Set2(q.a, k, FAdd(q.a[k], q.b[k]))), "1") /\ FLe(Dist(p, Set2(q.a, k, FSub(q.a[k], q.b[k]))), "1")
(* the order is sound: two rules general to each other accept the same        *)
InvAntisym ==
  (ph = "pair" /\ Kind # "ell" /\ CondGeneral(par, p, q) = "yes" /\ CondGeneral(par, q, p) = "yes") => \A x \in Xs : Yes(p, x) = Yes(q, x)
(* ternary: strictly so                                                       *)
InvStrict == (ph = "pair" /\ Kind = "ter" /\ CondGeneral(par, p, q) = "yes") => \E x \in Xs : Yes(p, x) /\ No(q, x)
(* if one accepts less, it is not the more general                            *)
InvNotGeneral ==
  (ph = "pair" /\ Kind # "ell" /\ \E x \in Xs : Yes(q, x) /\ No(p, x)) => CondGeneral(par, p, q) = "no"
(* crossover: genes are kept between the two, and children are valid           *)
InvCross == ph = "crossed" => CrossConserves(par, p, q, c, d)
InvValid == ph = "crossed" => CondWellFormed(par, c) /\ CondWellFormed(par, d)
(* an input both parents accept is accepted by every box the genes can make    *)
(* of exchanged whole intervals; ternary: by both children                     *)
InvCommon == (ph = "crossed" /\ Kind = "ter") => \A x \in Xs : (Yes(p, x) /\ Yes(q, x)) => (Yes(c, x) /\ Yes(d, x))
(* centre-spread conditions accept their centre                                *)
InvCentre == (ph = "crossed" /\ Kind \in {"csr", "ell"}) => Yes(c, c.a) /\ Yes(d, d.a)
(* decisions are total: on the grid nothing but ellipsoid borders is undecided *)
InvDecided == (ph = "pair" /\ Kind # "ell") => \A x \in Xs : Yes(p, x) \/ No(p, x)
=============================================================================
