------------------------------- MODULE TrSvd -------------------------------
(* Validation of recorded decompositions.                                    *)
EXTENDS Svd, TraceBase
VARIABLE l
OK(e) == e.out = "ok" /\ e.src = e.x /\ IsSvd(e.x, e.u, e.sv, e.v)
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
