----------------------------- MODULE MCTracker ------------------------------
(* The steps of threads that use the logging allocator, and the schedules:   *)
(* an allocation obtains a block and counts it, a release uncounts it and    *)
(* gives the block back; each is one visit of the heap, where a thread can   *)
(* be held.  With Atomic = FALSE the counter is loaded and stored in two     *)
(* steps, and the properties fail.                                           *)
EXTENDS Tracker, Json
CONSTANTS Threads, Atomic, Emit, Longest
VARIABLES script, pc, todo, reg, used, own, log, path
vars == <<script, pc, todo, reg, used, own, log, path>>
N(k, n) == [op |-> "new", o |-> 0, k |-> k, n |-> n]
Read == [op |-> "read"]
Scripts == {<<N("m4", 2)>>, <<N("m8", 1), [op |-> "del", o |-> 0]>>, <<N("a4", 3), [op |-> "copy", o |-> 1, y |-> 0]>>, <<N("m4", 1), [op |-> "resize", o |-> 0, n |-> 3]>>,
            <<[op |-> "new", o |-> 0, k |-> "a8", n |-> 2, fail |-> 1], Read>>, <<Read>>, <<N("v4", 2), Read>>, <<N("a8", 1), [o |-> 1] @@ N("a8", 2), [op |-> "assign", o |-> 0, y |-> 1]>>}
Sum(s) == FoldSet(LAMBDA t, a : a + Len(s[t]), 0, 1..Threads)
Few == {s \in [1..Threads -> Scripts] : Sum(s) <= Longest}
Value(e) == IF "fail" \in DOMAIN e THEN -1 ELSE 0
Work(o, e) == CHOOSE w \in Works(o, e, Value(e)) : w.k # "none"
Idle == [k |-> "idle"]
Init == /\ script \in Few /\ pc = [t \in 1..Threads |-> 1] /\ todo = [t \in 1..Threads |-> Idle] /\ reg = [t \in 1..Threads |-> 0]
        /\ used = 0 /\ own = [t \in 1..Threads |-> <<>>] /\ log = <<>> /\ path = <<>>
Now(t) == script[t][pc[t]]
Note(k, t, v) == log' = Append(log, <<k, t - 1, pc[t] - 1, v>>)
\* the call starts
Call(t) == /\ todo[t] = Idle /\ pc[t] <= Len(script[t])
           /\ todo' = [todo EXCEPT ![t] = IF Now(t).op = "read" THEN [k |-> "reads"] ELSE [k |-> "adds", d |-> SelectSeq(Work(own[t], Now(t)).d, LAMBDA x : x # 0), half |-> FALSE]]
           /\ Note(1, t, 0) /\ path' = Append(path, t - 1)
           /\ UNCHANGED <<script, pc, reg, used, own>>
\* one amount is counted
Count(t) == /\ todo[t].k = "adds" /\ todo[t].d # <<>>
            /\ IF Atomic THEN used' = used + todo[t].d[1] /\ todo' = [todo EXCEPT ![t].d = Tail(@)] /\ UNCHANGED reg
               ELSE IF todo[t].half THEN used' = reg[t] + todo[t].d[1] /\ todo' = [todo EXCEPT ![t].d = Tail(@), ![t].half = FALSE] /\ UNCHANGED reg
               ELSE reg' = [reg EXCEPT ![t] = used] /\ todo' = [todo EXCEPT ![t].half = TRUE] /\ UNCHANGED used
            /\ path' = Append(path, t - 1) /\ UNCHANGED <<script, pc, own, log>>
Return(t) == /\ (todo[t].k = "adds" /\ todo[t].d = <<>>) \/ todo[t].k = "reads"
             /\ LET v == IF todo[t].k = "reads" THEN used ELSE Value(Now(t)) IN Note(2, t, v) /\ own' = [own EXCEPT ![t] = Owned(@, Now(t), v)]
             /\ todo' = [todo EXCEPT ![t] = Idle] /\ pc' = [pc EXCEPT ![t] = @ + 1]
             /\ UNCHANGED <<script, reg, used, path>>
Over == \A t \in 1..Threads : pc[t] > Len(script[t])
Next == \/ \E t \in 1..Threads : IF Over THEN FALSE ELSE Call(t) \/ Count(t) \/ Return(t)
        \/ Over /\ (Emit => PrintT(ToJson([scripts |-> script, sched |-> path]))) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Exact == Over => used = Total(own)
\* what the threads saw is explained by the effects of the calls at some moments in between
Linear == Over => Explained(script, log, used)
=============================================================================
