------------------------------- MODULE TrBits -------------------------------
(* Validation of recorded histories of bit sets.  Every event also lists the *)
(* members of all live sets, as seen by exists() and any().                  *)
EXTENDS BitStore, TraceBase
VARIABLES l, st
Seen(s, r) == Live(s, r.x) /\ {r.o[k] : k \in 1..Len(r.o)} = s[r.x].s /\ r.any = (IF s[r.x].s = {} THEN 0 ELSE 1) /\ r.bad = 0
OK(e, s2) == /\ {e.seen[k].x : k \in 1..Len(e.seen)} = {x \in DOMAIN s2 : ~s2[x].gone}
             /\ \A k \in 1..Len(e.seen) : Seen(s2, e.seen[k])
             /\ e.res = Result(st, e)
Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Tr) /\ l' = l + 1
        /\ LET e == Tr[l] IN
           IF e.op = "begin" THEN st' = <<>>
           ELSE Pre(st, e) /\ e.out = "ok" /\ \E s2 \in {Post(st, e)} : (OK(e, s2) = TRUE) /\ st' = s2
Spec == Init /\ [][Next]_<<l, st>>
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
