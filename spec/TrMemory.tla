------------------------------ MODULE TrMemory ------------------------------
(* Validation of recorded histories of owners of storage.  Every event lists *)
(* the live owners with the sizes that they report (-1: an array, which does *)
(* not report its size; a vector reports its capacity), and the used memory. *)
EXTENDS Memory, TraceBase
VARIABLES l, st
Owners(e) == {e.own[k].x : k \in 1..Len(e.own)}
Reported(e, x) == e.own[CHOOSE k \in 1..Len(e.own) : e.own[k].x = x].n
\* the capacity of a vector is chosen by the standard library
Seen(e, s) == [x \in DOMAIN s |-> IF s[x].k = "v" /\ x \in Owners(e) /\ Reported(e, x) >= s[x].n THEN [s[x] EXCEPT !.n = Reported(e, x)] ELSE s[x]]
OK(e, s) == /\ Owners(e) = DOMAIN s
            /\ \A x \in DOMAIN s : s[x].k = "m" => Reported(e, x) = s[x].n
            /\ e.used = Used(Seen(e, s))
Applies(s, e) == CASE e.op = "parse" -> s[e.x].k = "m" [] e.op = "resize" -> s[e.x].k # "a" [] e.op = "load" -> s[e.x].k # "m" [] OTHER -> TRUE
Init == l = 1 /\ st = <<>>
\* with assertions on, a lost allocation of a matrix ends the program
Next == /\ l <= Len(Tr) /\ l' = l + 1
        /\ LET e == Tr[l] IN
           IF e.op = "begin" THEN st' = <<>> /\ ("leak" \in DOMAIN e => e.leak = 0 \/ e.chk = 0) = TRUE
           ELSE IF e.out = "ok" /\ e.res = "skip" THEN ((IF Pre(st, e) THEN ~Applies(st, e) ELSE TRUE) /\ OK(e, st)) = TRUE /\ st' = st
           ELSE IF e.out = "abort" THEN (e.fail > 0 /\ e.nassert = 0) = TRUE /\ st' = <<>>
           ELSE /\ Pre(st, e) /\ e.out = "ok" /\ e.hit <= e.fail /\ e.res \in (IF e.hit = 0 THEN {"ok"} ELSE {"ok", "badalloc"})
                /\ \E s2 \in Post(st, e, e.hit) : (OK(e, s2) = TRUE) /\ st' = s2
Spec == Init /\ [][Next]_<<l, st>>
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
