------------------------------ MODULE EnvTrace -------------------------------
(* Checks recorded histories of the built-in problems (harness/envdrive.c).    *)
(* The agent's position is never recorded: pos is the set of positions it may  *)
(* be at, given everything it has perceived.                                    *)
EXTENDS Env, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Active
VARIABLES l, m, pos, last
vars == <<l, m, pos, last>>
View == l
Chk(name, cond) == IF "env" \notin Active THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"FAIL", {"env"}, name, "event", l, Trace[l].e>>) /\ FALSE
ev == Trace[l]
Eq(a, b) == Alike(a, b, "0")
SameD(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FEq(a[i], b[i])
None == {}
(* six standard deviations around the mean of n independent draws of probability k/d *)
Fair(cnt, n, k, d) ==
  LET q == FDiv(F(k), F(d)) mean == FMul(F(n), q)
      sd == FSqrt(FMul(mean, FSub("1", q))) IN
  FLe(FAbs(FSub(F(cnt), mean)), FAdd("1", FMul("6", sd)))
TInit ==
  /\ ev.e = "Init" /\ last' = <<>>
  /\ CASE ev.kind = "maze" ->
            /\ pos' = None /\ m' = ev.rows
            /\ Chk("dimensions of a maze problem", ev.dims = <<8, 1, 8>> /\ ev.multi /\ FEq(ev.max, "1"))
       [] ev.kind = "mux" ->
            /\ pos' = None /\ m' = <<>>
            /\ Chk("dimensions of a multiplexer problem", ev.dims = <<MuxLen(ev.bits), 1, 2>> /\ ~ev.multi /\ FEq(ev.max, "1"))
       [] ev.kind = "csv" ->
            /\ pos' = None /\ m' = <<>>
            /\ Chk("dimensions of a data problem", ev.dims = <<Len(ev.given[1][1]), Len(ev.given[2][1]), 1>> /\ ~ev.multi)
            /\ Chk("the data are the rows and columns of the files", Eq(ev.given, ev.read))
       [] ev.kind = "toobig" -> /\ pos' = None /\ m' = <<>> /\ Chk("a maze of any size is read or refused", ev.r # "crashed")
Maze == m # <<>>
(* a trial starts on a free cell, with that cell's percept                      *)
TReset ==
  /\ ev.e = "reset" /\ UNCHANGED m
  /\ IF Maze
     THEN /\ last' = <<>>
          /\ Chk("a trial starts unfinished", ~ev.done)
          /\ pos' = {p \in FreeCells(m) : SameD(ev.x, Percept(m, p))}
          /\ Chk("a trial starts on a free cell", pos' # {})
     ELSE UNCHANGED <<pos, last>>
TExec ==
  /\ ev.e = "exec" /\ UNCHANGED <<m, last>>
  /\ IF Maze
     THEN /\ Chk("looking changes nothing", SameD(ev.x, ev.y))
          /\ pos' = {Goes(m, p, ev.a) : p \in {q \in pos : /\ SameD(ev.x, Percept(m, Goes(m, q, ev.a)))
                                                        /\ FEq(ev.r, Reward(m, q, ev.a)) /\ ev.done = Ends(m, q, ev.a)}}
          /\ Chk("a step is the move, its reward and its percept", pos' # {})
     ELSE /\ UNCHANGED pos
          /\ Chk("states are vectors in the unit interval", \A i \in 1..Len(ev.x) : FLe("0", ev.x[i]) /\ FLe(ev.x[i], "1"))
          /\ Chk("the reward is for the addressed bit", FEq(ev.r, IF Answer(ev.x) = ev.a THEN "1" ELSE "0"))
          /\ Chk("every trial is one step", ev.done)
TResets ==
  /\ ev.e = "resets" /\ UNCHANGED <<m, last>> /\ pos' = None
  /\ LET free == FreeCells(m)
         views == [p \in free |-> Percept(m, p)]
         n == Len(ev.xs)
         kinds == {views[p] : p \in free} IN
     Chk("trials start on every free cell alike",
         /\ \A i \in 1..n : \E v \in kinds : SameD(ev.xs[i], v)
         /\ \A v \in kinds : Fair(Cardinality({i \in 1..n : SameD(ev.xs[i], v)}), n, Cardinality({p \in free : views[p] = v}), Cardinality(free)))
Released == "mem" \notin Active \/ ev.leak = 0 \/ (PrintT(<<"FAIL", {"mem"}, "everything is released", "event", l, ev.e>>) /\ FALSE)
TDraws ==
  /\ ev.e = "draws" /\ UNCHANGED <<m, last, pos>>
  /\ LET n == Len(ev.xs) k == Len(ev.xs[1]) IN
     Chk("states are drawn uniformly",
         \A j \in 1..k : /\ Fair(Cardinality({i \in 1..n : FLt("0.5", ev.xs[i][j])}), n, 1, 2)
                         /\ Fair(Cardinality({i \in 1..n : FLt("0.25", ev.xs[i][j])}), n, 3, 4)
                         /\ (j = 1 \/ Fair(Cardinality({i \in 1..n : FLt("0.5", ev.xs[i][j]) = FLt("0.5", ev.xs[i][j - 1])}), n, 1, 2)))
Init == l = 1 /\ m = <<>> /\ pos = None /\ last = <<>>
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE ev.e = "Init" -> TInit [] ev.e = "reset" -> TReset [] ev.e = "exec" -> TExec [] ev.e = "resets" -> TResets
       [] ev.e = "draws" -> TDraws [] ev.e = "End" -> Released /\ m' = <<>> /\ pos' = None /\ last' = <<>>
       [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
