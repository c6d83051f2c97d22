------------------------------- MODULE TrRRC -------------------------------
EXTENDS RRC, TraceBase
VARIABLE l
OK(e) == /\ e.out = "ok" /\ (e.g.r = 1 \/ e.g.c = 1) /\ IsTaps(e.g.d, e.L, e.A, e.B, e.N)
         /\ ("g2" \in DOMAIN e => e.g2 = e.g)
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
