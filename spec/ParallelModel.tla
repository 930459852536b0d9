---------------------------- MODULE ParallelModel ----------------------------
(***************************************************************************)
(* The parallel sections: matching, predicting and updating work on the rules  *)
(* of a set in parallel, one rule a task, each task reading what is shared and   *)
(* reading and writing (in two separate steps) its own rule; the results are     *)
(* combined afterwards by one thread, in list order.  Every schedule of every    *)
(* number of threads gives the same outcome -- as long as a task touches         *)
(* nothing shared: with Shared (a random-number generator, an accumulator)       *)
(* drawn from inside the tasks the outcome depends on the schedule.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Rules, Threads, Shared
VARIABLES todo, at, reg, val, shared, total, ph
vars == <<todo, at, reg, val, shared, total, ph>>
R == 1..Rules
T == 1..Threads
Work(r, v) == 3 * v + r
Init == /\ todo = R /\ at = [t \in T |-> 0] /\ reg = [t \in T |-> 0] /\ val = [r \in R |-> r] /\ shared = 1 /\ total = 0 /\ ph = "par"
Take(t) == /\ ph = "par" /\ at[t] = 0 /\ \E r \in todo : todo' = todo \ {r} /\ at' = [at EXCEPT ![t] = r] /\ reg' = [reg EXCEPT ![t] = -1]
           /\ UNCHANGED <<val, shared, total, ph>>
Read(t) == /\ ph = "par" /\ at[t] # 0 /\ reg[t] = -1
           /\ reg' = [reg EXCEPT ![t] = val[at[t]] + (IF Shared THEN shared ELSE 0)]
           /\ UNCHANGED <<todo, at, val, shared, total, ph>>
Write(t) == /\ ph = "par" /\ at[t] # 0 /\ reg[t] # -1
            /\ val' = [val EXCEPT ![at[t]] = Work(at[t], reg[t])]
            /\ shared' = IF Shared THEN (5 * shared + 3) % 16 ELSE shared
            /\ at' = [at EXCEPT ![t] = 0] /\ reg' = [reg EXCEPT ![t] = 0]
            /\ UNCHANGED <<todo, total, ph>>
Join == /\ ph = "par" /\ todo = {} /\ \A t \in T : at[t] = 0
        /\ ph' = "done" /\ total' = (CHOOSE f \in {[i \in R |-> val[i]]} : TRUE) /\ UNCHANGED <<todo, at, reg, val, shared>>
Next == Join \/ \E t \in T : Take(t) \/ Read(t) \/ Write(t)
Spec == Init /\ [][Next]_vars
(* the sequential outcome                                                       *)
InvSequential == ph = "done" => total = [r \in R |-> Work(r, r)]
InvOwned == \A t, u \in T : t # u /\ at[t] # 0 => at[t] # at[u]
=============================================================================
