------------------------------- MODULE TrConv -------------------------------
(* Validation of recorded conversions between element types.                 *)
EXTENDS Convert, TraceBase
VARIABLE l
OK(e) == /\ e.out = "ok"
         /\ e.src = e.mm
         /\ e.res = ConvM(e.t, e.t2, e.s, e.mm)
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
