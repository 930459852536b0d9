----------------------------- MODULE EnvScenario -----------------------------
(* Problems and histories of steps in them.                                   *)
EXTENDS Env, Json, TLC
CONSTANTS MaxOps
VARIABLES c, ops
vars == <<c, ops>>
One(S) == RandomElement(S)
Coin(p) == One(1..100) <= p
Letter(z) == LET u == One(1..100) IN IF u <= 45 THEN "*" ELSE IF u <= 65 THEN "O" ELSE IF u <= 80 THEN "Q" ELSE IF u <= 90 THEN "F" ELSE "G"
Row(w, z) == [i \in 1..w |-> Letter(i)]
Maze(w, h) ==
  LET p == One(1..h) q == One(1..w) IN [kind |-> "maze", w |-> w, h |-> h, at |-> <<q, p>>, rows |-> [j \in 1..h |-> Row(w, j)]]
(* one cell at least is free                                                  *)
Freed(z) == [z EXCEPT !.rows[z.at[2]][z.at[1]] = "*"]
Side(z) == LET u == One(1..100) IN IF u <= 70 THEN One(1..7) ELSE IF u <= 96 THEN One(8..20) ELSE One(49..50)
Real1(z) == FStr(FDiv(F(One(-999999..999999)), F(One({1, 10, 1000, 7, 999983}))))
Table(r, k) == [i \in 1..r |-> [j \in 1..k |-> Real1(i)]]
Csv(z) ==
  \E xd \in {One(1..14)} : \E yd \in {One(1..4)} : \E r \in {One(1..12)} : \E t \in {One(1..6)} :
    c' = [kind |-> "csv", style |-> One(0..3), crlf |-> Coin(20), nl |-> Coin(70), xd |-> xd, yd |-> yd,
          train_x |-> Table(r, xd), train_y |-> Table(r, yd), test_x |-> Table(t, xd), test_y |-> Table(t, yd)]
Init == c = <<>> /\ ops = <<>>
Choose ==
  \E u \in {One(1..100)} :
    IF u <= 55 THEN \E w \in {Side(1)} : \E h \in {Side(2)} : \E m \in {Maze(w, h)} :
                    c' = Freed(m) @@ [nl |-> Coin(75), seed |-> One(1..1000000)]
    ELSE IF u <= 60 THEN \E s \in {One({<<51, 3>>, <<3, 51>>, <<51, 51>>, <<60, 50>>, <<50, 60>>})} : \E m \in {Maze(s[1], s[2])} :
                    c' = Freed(m) @@ [nl |-> Coin(75), seed |-> 1]
    ELSE IF u <= 85 THEN c' = [kind |-> "mux", bits |-> One({3, 3, 4, 5, 6, 6, 7, 10, 11, 11, 12, 19, 20, 37}), seed |-> One(1..1000000)]
    ELSE Csv(0)
Op(z) == LET u == One(1..100) IN
  IF u <= 12 THEN [op |-> "reset"] ELSE IF u <= 16 /\ c.kind = "maze" THEN [op |-> "resets"] ELSE IF u <= 16 /\ c.bits <= 12 THEN [op |-> "draws"] ELSE [op |-> "exec", a |-> One(0..(IF c.kind = "maze" THEN 7 ELSE 1))]
Next ==
  \/ c = <<>> /\ Choose /\ ops' = <<>>
  \/ /\ c # <<>> /\ Len(ops) < MaxOps /\ UNCHANGED c
     /\ IF c.kind = "csv" THEN ops' = [i \in 1..MaxOps |-> [op |-> "none"]] ELSE ops' = Append(ops, Op(0))
     /\ (Len(ops') = MaxOps => PrintT("SCN " \o ToJson(c @@ [ops |-> IF c.kind = "csv" THEN <<>> ELSE ops'])))
Spec == Init /\ [][Next]_vars
=============================================================================
