------------------------------ MODULE TrClock -------------------------------
EXTENDS Clock, TraceBase
VARIABLES l, marks
(* marks: the moment of the last tic, and of the readings since then: the    *)
(* documentation lets a reading restart the chronometer.                     *)
OK(e) ==
    /\ e.out = "ok" /\ "noise" \notin DOMAIN e
    /\ CASE e.op \in {"begin", "tic"} -> TRUE
         [] e.op = "stamp" -> e.txt = Stamp([day |-> e.day, sec |-> e.sec], e.tz)
         [] e.op = "toc" -> \E m \in marks : \E d \in {e.ms - Apart(m, e)} : d <= 1 /\ d >= -1
         [] e.op = "print" -> \E m \in marks : Says(e.txt, Apart(m, e))
Now(e) == [day |-> e.day, sec |-> e.sec, milli |-> e.milli]
Init == l = 1 /\ marks = {}
Next == /\ l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
        /\ marks' = CASE Tr[l].op = "begin" -> {} [] Tr[l].op = "tic" -> {Now(Tr[l])} [] Tr[l].op \in {"toc", "print"} -> marks \cup {Now(Tr[l])} [] OTHER -> marks
Spec == Init /\ [][Next]_<<l, marks>>
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
