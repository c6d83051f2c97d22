---------------------------- MODULE TrArrayOff -----------------------------
(* Histories of arrays recorded without the assertions: an access out of     *)
(* range reads zero and writes nothing.                                      *)
EXTENDS ArrayStore, TraceBase
VARIABLES l, st
Same(d, o) == Len(d) = Len(o) /\ \A k \in 1..Len(d) : d[k] = <<>> \/ d[k][1] = o[k]
Seen(s, r) == Live(s, r.x) /\ r.how = "lin" /\ Same(s[r.x].d, r.o)
OK(e, s2) == /\ \A k \in 1..Len(e.seen) : Seen(s2, e.seen[k])
             /\ (IF e.op = "get" /\ Pre(st, e) THEN LET v == st[e.x].d[Pos(st[e.x], e.i)] IN v = <<>> \/ v[1] = e.res ELSE TRUE)
             /\ (IF e.op = "get" /\ ~Pre(st, e) THEN e.res = 0 ELSE TRUE)
Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Tr) /\ l' = l + 1
        /\ LET e == Tr[l] IN
           IF e.op = "begin" THEN st' = <<>>
           ELSE IF Pre(st, e) THEN e.out = "ok" /\ \E s2 \in {Post(st, e)} : (OK(e, s2) = TRUE) /\ st' = s2
           ELSE Stop(st, e) /\ e.out = "ok" /\ (OK(e, st) = TRUE) /\ st' = st
Spec == Init /\ [][Next]_<<l, st>>
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
