-------------------------------- MODULE Env ---------------------------------
(***************************************************************************)
(* The built-in problems.  A maze is a sequence of rows of one-letter cells   *)
(* on a torus; the agent's position is part of the state but only its         *)
(* percept is observable.  A (real) multiplexer has k address and 2^k data    *)
(* inputs.  A data-file problem is four tables.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Dbl

(* ---- mazes: m is a sequence of rows, each a sequence of letters            *)
Width(m) == Len(m[1])
Height(m) == Len(m)
Cells(m) == (1..Width(m)) \X (1..Height(m))
Cell(m, p) == m[p[2]][p[1]]
FreeCells(m) == {p \in Cells(m) : Cell(m, p) = "*"}
Wrap(i, k) == ((i - 1) % k) + 1
Step(m, p, d) == <<Wrap(p[1] + d[1], Width(m)), Wrap(p[2] + d[2], Height(m))>>
Sense(c) == CASE c = "*" -> "0.1" [] c = "O" -> "0.3" [] c = "G" -> "0.5" [] c = "F" -> "0.7" [] c = "Q" -> "0.9"
(* the eight neighbours, row by row                                           *)
Around == <<<<-1, -1>>, <<0, -1>>, <<1, -1>>, <<-1, 0>>, <<1, 0>>, <<-1, 1>>, <<0, 1>>, <<1, 1>>>>
Percept(m, p) == [i \in 1..8 |-> Sense(Cell(m, Step(m, p, Around[i])))]
(* actions 0..7: clockwise from up                                            *)
Move == <<<<0, -1>>, <<1, -1>>, <<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<-1, -1>>>>
Food(c) == c \in {"F", "G"}
Wall(c) == c \in {"O", "Q"}
Goes(m, p, a) == LET q == Step(m, p, Move[a + 1]) IN IF Wall(Cell(m, q)) THEN p ELSE q
Ends(m, p, a) == Food(Cell(m, Step(m, p, Move[a + 1])))
Reward(m, p, a) == IF Ends(m, p, a) THEN "1" ELSE "0"

(* ---- multiplexers                                                          *)
RECURSIVE Two(_)
Two(k) == IF k = 0 THEN 1 ELSE 2 * Two(k - 1)
AddrBits(n) == CHOOSE k \in 1..10 : k + Two(k) <= n /\ k + 1 + Two(k + 1) > n
MuxLen(n) == AddrBits(n) + Two(AddrBits(n))
Bit(d) == IF FLt("0.5", d) THEN 1 ELSE 0
RECURSIVE Addr(_, _)
Addr(x, k) == IF k = 0 THEN 0 ELSE 2 * Addr(x, k - 1) + Bit(x[k])   \* most significant bit first
Answer(x) == LET k == AddrBits(Len(x)) IN Bit(x[k + 1 + Addr(x, k)])
=============================================================================
