----------------------------- MODULE DataModel ------------------------------
(***************************************************************************)
(* Arrays given by a client, and what a call may take from them.  An array    *)
(* is a view of the client's memory: where it starts, its shape and the steps  *)
(* between rows and columns (also backwards, overlapping, or zero).  A call    *)
(* either refuses a view whose shape does not fit and leaves the model as it   *)
(* was, or takes the values the view has at that moment; afterwards the client *)
(* may overwrite its memory.  Reading the memory as if it were contiguous       *)
(* agrees with the view only where InvContiguous says so: this is what the     *)
(* layouts of APIScenario are chosen to tell apart.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cells,   \* size of the client's memory
          Cols,    \* columns the model expects
          MaxRows,
          MaxOps
VARIABLES mem, taken, last, nops
vars == <<mem, taken, last, nops>>

Steps == -2..2
Place == 1..Cells
View == [off : Place, rows : 0..MaxRows, cols : 1..(Cols + 1), sr : Steps, sc : Steps]
At(v, i, j) == v.off + (i - 1) * v.sr + (j - 1) * v.sc
InBounds(v) == \A i \in 1..v.rows, j \in 1..v.cols : At(v, i, j) \in Place
Fits(v) == v.rows > 0 /\ v.cols = Cols
ValueOf(m, v) == [i \in 1..v.rows |-> [j \in 1..v.cols |-> m[At(v, i, j)]]]
Contiguous(v) == v.sc = 1 /\ (v.rows > 1 => v.sr = v.cols)
Raw(m, v) == [i \in 1..v.rows |-> [j \in 1..v.cols |-> LET k == v.off + (i - 1) * v.cols + (j - 1) IN IF k \in Place THEN m[k] ELSE -1]]
Views == {v \in View : InBounds(v)}
None == [none |-> 0]

Init == mem = [k \in Place |-> k] /\ taken = <<>> /\ last = None /\ nops = 0
Call(v) ==
  /\ taken' = IF Fits(v) THEN ValueOf(mem, v) ELSE taken
  /\ last' = [v |-> v, ok |-> Fits(v), then |-> mem]
  /\ UNCHANGED mem
Overwrite(k) == mem' = [mem EXCEPT ![k] = @ + 10] /\ UNCHANGED <<taken, last>>
Next == nops < MaxOps /\ nops' = nops + 1 /\ ((\E v \in Views : Call(v)) \/ (\E k \in Place : Overwrite(k)))
Spec == Init /\ [][Next]_vars

(* what is taken has the shape the model expects, whatever was asked           *)
InvShape == \A i \in 1..Len(taken) : Len(taken[i]) = Cols
(* it is the value at the time of the call, however the memory changed since     *)
InvByValue == (last # None /\ last.ok) => taken = ValueOf(last.then, last.v)
(* reading the memory in order is the same thing for contiguous views only       *)
InvContiguous == (last # None /\ Contiguous(last.v)) => Raw(last.then, last.v) = ValueOf(last.then, last.v)
InvOrderMatters ==
  (last # None /\ last.ok /\ ~Contiguous(last.v) /\ Cardinality({At(last.v, i, j) : i \in 1..last.v.rows, j \in 1..Cols}) > 1)
    => (last.v.sc = 1 /\ last.v.rows = 1) \/ Raw(last.then, last.v) # ValueOf(last.then, last.v) \/ Cols = 1
(* a refused call changes nothing, no call changes the client's memory           *)
StepRefused == [][(last' # last /\ ~last'.ok) => taken' = taken]_vars
StepRead == [][last' # last => mem' = mem]_vars
=============================================================================
