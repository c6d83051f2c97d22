------------------------------ MODULE TrArray ------------------------------
(* Validation of recorded histories of arrays.  Every event also lists the   *)
(* contents of arrays that were read cell by cell afterwards.                *)
EXTENDS ArrayStore, TraceBase
VARIABLES l, st
Same(d, o) == Len(d) = Len(o) /\ \A k \in 1..Len(d) : d[k] = <<>> \/ d[k][1] = o[k]
\* the cells in the order of the reader: for every tuple of the given dimensions, the first index running fastest
Seen(s, r) == IF ~Live(s, r.x) THEN FALSE
              ELSE IF r.how = "lin" THEN Same(s[r.x].d, r.o)
              ELSE r.dims = s[r.x].dims /\ Len(r.o) = Min2(Prod(r.dims), Len(s[r.x].d)) /\ \A n \in 1..Len(r.o) : LET v == s[r.x].d[Lin(r.dims, Tuple(r.dims, n-1)) + 1] IN v = <<>> \/ v[1] = r.o[n]
OK(e, s2) == /\ \A k \in 1..Len(e.seen) : Seen(s2, e.seen[k])
             /\ (IF e.op = "get" THEN LET v == st[e.x].d[Pos(st[e.x], e.i)] IN v = <<>> \/ v[1] = e.res ELSE TRUE)
             /\ (IF e.op \in {"get", "set"} /\ Len(e.i) = Len(st[e.x].dims) THEN e.raw = Lin(st[e.x].dims, e.i) ELSE TRUE)
Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Tr) /\ l' = l + 1
        /\ LET e == Tr[l] IN
           IF e.op = "begin" THEN st' = <<>>
           ELSE IF Pre(st, e) THEN e.out = "ok" /\ \E s2 \in {Post(st, e)} : (OK(e, s2) = TRUE) /\ st' = s2
           ELSE Stop(st, e) /\ e.out = "abort" /\ st' = <<>>
Spec == Init /\ [][Next]_<<l, st>>
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
