------------------------------ MODULE EnvModel ------------------------------
(* Every maze of a given size, explored from every free cell; every state of   *)
(* small multiplexers.                                                          *)
EXTENDS Env, TLC
CONSTANTS W, H, Letters, Bits
VARIABLES m, pos, done, steps, x
vars == <<m, pos, done, steps, x>>
Rows == [1..W -> Letters]
Mazes == [1..H -> Rows]
Init ==
  /\ done = FALSE /\ steps = 0
  /\ IF Bits = 0 THEN m \in Mazes /\ pos \in FreeCells(m) /\ x = <<>>
     ELSE m = <<>> /\ pos = <<0, 0>> /\ x \in [1..Bits -> {"0", "0.5", "1"}]
Walk ==
  /\ Bits = 0 /\ ~done /\ UNCHANGED <<m, x, steps>>
  /\ \E a \in 0..7 : pos' = Goes(m, pos, a) /\ done' = Ends(m, pos, a)
Next == Walk
Spec == Init /\ [][Next]_vars
InvOnFloor == Bits = 0 => Cell(m, pos) \notin {"O", "Q"}
InvEnds == Bits = 0 => (done <=> Food(Cell(m, pos)))
InvReward == (Bits = 0 /\ ~done) => \A a \in 0..7 : (Reward(m, pos, a) = "1") <=> Food(Cell(m, Goes(m, pos, a)))
(* a step onto a free cell can be undone by the opposite action                *)
Opposite(a) == (a + 4) % 8
InvReversible == (Bits = 0 /\ ~done) => \A a \in 0..7 : LET q == Goes(m, pos, a) IN
  (q # pos /\ Cell(m, q) = "*") => Goes(m, q, Opposite(a)) = pos
(* what is perceived in a direction is what a step there meets                 *)
Dir == <<2, 3, 5, 8, 7, 6, 4, 1>>   \* position in the percept of actions 0..7
InvPercept == (Bits = 0 /\ ~done) => \A a \in 0..7 :
  LET v == Percept(m, pos)[Dir[a + 1]] IN
  /\ (v \in {"0.3", "0.9"} <=> Wall(Cell(m, Step(m, pos, Move[a + 1])))) /\ (v \in {"0.5", "0.7"} <=> Ends(m, pos, a))
InvMux == Bits > 0 =>
  /\ MuxLen(Bits) = Bits
  /\ Answer(x) \in {0, 1}
  (* only the addressed bit matters                                            *)
  /\ \A i \in (AddrBits(Bits) + 1)..Bits : \A v \in {"0", "1"} :
       i # AddrBits(Bits) + 1 + Addr(x, AddrBits(Bits)) => Answer([x EXCEPT ![i] = v]) = Answer(x)
  /\ \A v \in {"0", "1"} : Answer([x EXCEPT ![AddrBits(Bits) + 1 + Addr(x, AddrBits(Bits))] = v]) = (IF v = "1" THEN 1 ELSE 0)
=============================================================================
