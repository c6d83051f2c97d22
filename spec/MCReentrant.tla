---------------------------- MODULE MCReentrant -----------------------------
(* All the schedules of the threads of Reentrant; each complete one is       *)
(* printed once, as the sequence of the threads that take the steps.         *)
EXTENDS Reentrant, Json
CONSTANT Emit
Over == \A t \in Ids : Ended(t)
Same == \A t \in Ids : \A i \in DOMAIN program[t] : program[t][i] = [f |-> "add", k |-> 1]
Next == \/ \E t \in Ids : Step(t)
        \/ Over /\ ((Emit /\ Same) => PrintT(ToJson([order |-> order, lens |-> [t \in Ids |-> 3 * Len(program[t])]]))) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
