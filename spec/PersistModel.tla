---------------------------- MODULE PersistModel ----------------------------
(***************************************************************************)
(* Who owns which rule.  Rules are objects (addresses) with a content; a        *)
(* model has a population and a stored population; files and exports hold        *)
(* contents.  Training may alter, add or discard rules; storing copies, retrieving*)
(* moves, loading and inserting create.  Every object is in exactly one list,    *)
(* and what was kept stays what it was whatever happens to the model meanwhile.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Models, Objects, Values, MaxOps
VARIABLES pop, sto, val, file, exp, ghost, freed, ops
vars == <<pop, sto, val, file, exp, ghost, freed, ops>>
M == 1..Models
O == 1..Objects
Vs == 1..Values
Used == UNION ({pop[m] : m \in M} \cup {sto[m] : m \in M})
Free == O \ Used
(* contents as a bag, written as a function from values to counts                *)
Bag(S, f) == [v \in Vs |-> Cardinality({o \in S : f[o] = v})]
Empty == [v \in Vs |-> 0]
Count(b) == LET RECURSIVE go(_) go(v) == IF v = 0 THEN 0 ELSE b[v] + go(v - 1) IN go(Values)
Init == /\ pop = [m \in M |-> {}] /\ sto = [m \in M |-> {}] /\ val = [o \in O |-> 1] /\ file = <<>> /\ exp = <<>>
        /\ ghost = [m \in M |-> Empty] /\ freed = {} /\ ops = 0
(* a population of given contents made of new objects                            *)
Make(b, S, f) == /\ S \subseteq Free /\ Cardinality(S) = Count(b) /\ Bag(S, f) = b /\ \A o \in O \ S : f[o] = val[o]
Tick == ops < MaxOps /\ ops' = ops + 1
(* one canonical choice of new objects: the least unused ones                     *)
Fresh(n) == LET RECURSIVE pick(_, _) pick(S, k) == IF k = 0 THEN {} ELSE LET o == CHOOSE a \in S : \A c \in S : a <= c IN {o} \cup pick(S \ {o}, k - 1)
            IN pick(Free, n)
RECURSIVE Fill(_, _, _)
Fill(f, S, b) == IF S = {} THEN f
                 ELSE LET o == CHOOSE a \in S : \A c \in S : a <= c
                          v == CHOOSE u \in Vs : b[u] > 0 /\ \A t \in Vs : b[t] > 0 => u <= t
                      IN Fill([f EXCEPT ![o] = v], S \ {o}, [b EXCEPT ![v] = @ - 1])
Room(b) == Count(b) <= Cardinality(Free)
Train(m) ==
  /\ Tick /\ UNCHANGED <<sto, file, exp, ghost>>
  /\ \/ \E o \in pop[m], v \in Vs : val[o] # v /\ val' = [val EXCEPT ![o] = v] /\ UNCHANGED <<pop, freed>>
     \/ Free # {} /\ \E v \in Vs : LET S == Fresh(1) o == CHOOSE a \in S : TRUE IN
          pop' = [pop EXCEPT ![m] = @ \cup S] /\ val' = [val EXCEPT ![o] = v] /\ freed' = freed \ S
     \/ \E o \in pop[m] : pop' = [pop EXCEPT ![m] = @ \ {o}] /\ freed' = freed \cup {o} /\ UNCHANGED val
Store(m) ==
  /\ Tick /\ LET b == Bag(pop[m], val) S == Fresh(Count(b)) IN
     /\ Room(b) /\ sto' = [sto EXCEPT ![m] = S] /\ val' = Fill(val, S, b) /\ freed' = (freed \cup sto[m]) \ S
     /\ ghost' = [ghost EXCEPT ![m] = b]
  /\ UNCHANGED <<pop, file, exp>>
Retrieve(m) ==
  /\ Tick /\ UNCHANGED <<val, file, exp>>
  /\ IF sto[m] = {} THEN UNCHANGED <<pop, sto, freed, ghost>>
     ELSE /\ pop' = [pop EXCEPT ![m] = sto[m]] /\ sto' = [sto EXCEPT ![m] = {}] /\ freed' = freed \cup pop[m] /\ ghost' = [ghost EXCEPT ![m] = Empty]
Save(m) == Tick /\ file' = <<Bag(pop[m], val)>> /\ UNCHANGED <<pop, sto, val, exp, ghost, freed>>
Load(m) ==
  /\ Tick /\ file # <<>> /\ LET b == file[1] S == Fresh(Count(b)) IN
     /\ Room(b) /\ pop' = [pop EXCEPT ![m] = S] /\ val' = Fill(val, S, b) /\ freed' = (freed \cup pop[m]) \ S
  /\ UNCHANGED <<sto, file, exp, ghost>>
Export(m) == Tick /\ exp' = <<Bag(pop[m], val)>> /\ UNCHANGED <<pop, sto, val, file, ghost, freed>>
Insert(m) ==
  /\ Tick /\ exp # <<>> /\ LET b == exp[1] S == Fresh(Count(b)) IN
     /\ Room(b) /\ pop' = [pop EXCEPT ![m] = @ \cup S] /\ val' = Fill(val, S, b) /\ freed' = freed \ S
  /\ UNCHANGED <<sto, file, exp, ghost>>
Next == \E m \in M : Train(m) \/ Store(m) \/ Retrieve(m) \/ Save(m) \/ Load(m) \/ Export(m) \/ Insert(m)
Spec == Init /\ [][Next]_vars
(* every object belongs to one list, discarded ones to none                       *)
Lists == {<<m, 0>> : m \in M} \cup {<<m, 1>> : m \in M}
In(l) == IF l[2] = 0 THEN pop[l[1]] ELSE sto[l[1]]
InvOwned == \A l, k \in Lists : l # k => In(l) \cap In(k) = {}
InvFreed == freed \cap Used = {}
(* a snapshot is what the population was when it was taken                         *)
InvSnapshot == \A m \in M : Bag(sto[m], val) = ghost[m]
(* steps: what loading and inserting give, and that nobody else is touched          *)
Others(m) == \A k \in M \ {m} : pop'[k] = pop[k] /\ \A o \in pop[k] \cup sto[k] : val'[o] = val[o]
StepAlone == [][\E m \in M : Others(m)]_vars
StepRetrieve == [][\A m \in M : (sto[m] # {} /\ sto'[m] = {} /\ pop'[m] # pop[m]) => Bag(pop'[m], val') = ghost[m]]_vars
=============================================================================
