----------------------------- MODULE TrFourier -----------------------------
(* Validation of recorded transforms: operand times e.s, result times        *)
(* 2^20 e.s, transformed as one vector or column by column.                  *)
EXTENDS Fourier, TraceBase
VARIABLE l
Tol(t, x) == LET a == SumAbs(x) IN IF t = "d" THEN 6 * a + 10 ELSE 100 * a + 100
IsDft(t, x, y) == /\ Len(y) = Len(x)
                  /\ \A k \in 1..Len(x) : /\ Near(y[k][1], DftRe(x, k-1), Tol(t, x))
                                          /\ Near(y[k][2], DftIm(x, k-1), Tol(t, x))
OK(e) == /\ e.out = "ok" /\ e.src = e.x /\ SameShape(e.res, e.x)
         /\ IF IsVec(e.x) THEN IsDft(e.t, e.x.d, e.res.d)
            ELSE \A j \in 0..(e.x.c-1) : IsDft(e.t, Col(e.x, j).d, Col(e.res, j).d)
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
