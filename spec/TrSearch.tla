------------------------------ MODULE TrSearch ------------------------------
(* Validation of recorded searches.                                          *)
EXTENDS Search, TraceBase
VARIABLE l
ColOf(m, n) == m.r = n /\ m.c = 1 /\ Len(m.d) = n
Call(e) ==
    LET s == e.mm.d IN
    CASE e.op = "sort" -> SameShape(e.res, e.mm) /\ IsSortOf(e.res.d, s)
      [] e.op = "sort_indices" -> ColOf(e.res, Len(s)) /\ IsSortIndex(e.res.d, s)
      [] e.op = "select_least" -> ColOf(e.res, e.n) /\ IsLeast(e.res.d, s, AllOf(s), e.n)
      [] e.op = "select_most" -> ColOf(e.res, e.n) /\ IsLeast(e.res.d, Negated(s), AllOf(s), e.n)
      [] e.op = "select_limited_least" -> ColOf(e.res, e.n) /\ IsLeast(e.res.d, s, {e.ix[k] : k \in 1..Len(e.ix)}, e.n)
      [] e.op = "find" -> {e.res[k] : k \in 1..Len(e.res)} = Found(s, e.v) /\ e.any = (IF Found(s, e.v) = {} THEN 0 ELSE 1)
      [] e.op = "dijkstra" -> ColOf(e.res, e.mm.r) /\ IsPrev(e.mm, e.src0, LAMBDA v : e.res.d[v+1])
OK(e) == e.out = "ok" /\ Call(e) /\ e.src = e.mm
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
