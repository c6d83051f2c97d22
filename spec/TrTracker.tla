----------------------------- MODULE TrTracker ------------------------------
(* Recorded runs of several threads.  ev lists the calls <<1, t, i, 0>> and  *)
(* the returns <<2, t, i, v>> in the order in which they happened; i is the  *)
(* index of the command in the script of the thread, -1 a read in between.   *)
EXTENDS Tracker, TraceBase
VARIABLE l
OK(e) == /\ e.out = "ok"
         /\ CASE e.op \in {"run", "sched"} ->
                   Explained(e.scripts, e.ev, e.end) /\ e.after = 0
              [] e.op = "stress" -> e.used = FoldLeft(LAMBDA acc, x : acc + x[1] * x[2], 0, e.live) /\ e.after = 0
              [] e.op = "first" -> \A k \in 1..Len(e.got) : e.got[k] = <<8 * ((e.threads * (e.threads + 1)) \div 2), 0>>
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
