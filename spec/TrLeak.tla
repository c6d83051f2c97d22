------------------------------- MODULE TrLeak -------------------------------
(* No command leaves a block allocated that it does not own, and none is     *)
(* released twice.  The events of sessions report at each begin what the     *)
(* previous session left behind.  What the commands compute is validated     *)
(* elsewhere.                                                                *)
EXTENDS Num, TraceBase
VARIABLE l
OK(e) == e.out # "doublefree" /\ (("leak" \in DOMAIN e /\ ~("warm" \in DOMAIN e)) => e.leak = 0)
Init == l = 1
Next == l <= Len(Tr) /\ OK(Tr[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
