------------------------------ MODULE TrGuard -------------------------------
EXTENDS Guard, TraceBase
VARIABLE l
OK(e) == e.out \in Outcomes(e)
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
