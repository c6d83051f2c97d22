----------------------------- MODULE Reentrant ------------------------------
(* Threads that work on objects of their own.  A call of a thread runs in    *)
(* three steps: it reads its object into a work space, computes there, and   *)
(* stores the result.  Each thread has a program of calls, and between any   *)
(* two steps the other threads may run.                                      *)
EXTENDS Num
CONSTANTS Threads, Longest, Shared
VARIABLES program, done, step, object, space, order
vars == <<program, done, step, object, space, order>>
Ids == 1..Threads
Calls == {[f |-> "add", k |-> 1], [f |-> "mul", k |-> 3], [f |-> "neg", k |-> 0]}
\* what a call does to its object, when nobody else is there
Alone(c, v) == CASE c.f = "add" -> v + c.k [] c.f = "mul" -> v * c.k [] c.f = "neg" -> -v
RECURSIVE After(_, _)
After(p, v) == IF p = <<>> THEN v ELSE After(Tail(p), Alone(p[1], v))
Programs == UNION {[1..n -> Calls] : n \in 1..Longest}
First(t) == 10 + t
\* the work space of a thread; with Shared = TRUE all the threads have the same one
Space(t) == IF Shared THEN 1 ELSE t
Init == /\ program \in [Ids -> Programs]
        /\ done = [t \in Ids |-> 0] /\ step = [t \in Ids |-> 0]
        /\ object = [t \in Ids |-> First(t)] /\ space = [t \in Ids |-> 0] /\ order = <<>>
Ended(t) == done[t] = Len(program[t])
Step(t) ==
    /\ ~Ended(t)
    /\ CASE step[t] = 0 -> space' = [space EXCEPT ![Space(t)] = object[t]] /\ step' = [step EXCEPT ![t] = 1] /\ UNCHANGED <<object, done>>
         [] step[t] = 1 -> space' = [space EXCEPT ![Space(t)] = Alone(program[t][done[t] + 1], @)] /\ step' = [step EXCEPT ![t] = 2] /\ UNCHANGED <<object, done>>
         [] step[t] = 2 -> object' = [object EXCEPT ![t] = space[Space(t)]] /\ step' = [step EXCEPT ![t] = 0] /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED space
    /\ order' = Append(order, t - 1)
    /\ UNCHANGED program
\* whatever the schedule, a thread that is between two calls has what it would have alone
Independent == \A t \in Ids : step[t] = 0 => object[t] = After(SubSeq(program[t], 1, done[t]), First(t))
=============================================================================
