------------------------------ MODULE MCClock -------------------------------
(* Every day of the century, reached by counting days, months and years; and *)
(* all short uses of the chronometer.                                        *)
EXTENDS Clock, Json
CONSTANTS LastYear, Longest, Emit
VARIABLES n, date, script
Jumps == {0, 1, 999, 1000, 61001}
Init == n = 0 /\ date = [y |-> 2000, m |-> 1, d |-> 1] /\ script = <<>>
Day == date.y <= LastYear /\ script = <<>> /\ n' = n + 1 /\ date' = Tomorrow(date) /\ UNCHANGED script
Use(op, j) == script' = Append(script, [op |-> op, wait |-> j]) /\ UNCHANGED <<n, date>>
Watch == /\ n = 0 /\ Len(script) < Longest
         /\ \E j \in Jumps : IF script = <<>> THEN Use("tic", j) ELSE \E op \in {"tic", "toc", "print", "stamp"} : Use(op, j)
Done == Len(script) = Longest /\ (Emit => PrintT(ToJson([script |-> script]))) /\ UNCHANGED <<n, date, script>>
Next == Day \/ Watch \/ Done
Spec == Init /\ [][Next]_<<n, date, script>>
Calendar == script = <<>> => DateOf(n) = date /\ DayOf(date.y, date.m, date.d) = n
\* a date is valid, and a change of the local time happens at the announced Sundays
Sundays == (script = <<>> /\ date.d = 1) =>
    \A w \in 1..5 : \E s \in {Sunday(date.y, date.m, w)} : Weekday(s) = 0 /\ DateOf(s).m = date.m
        /\ (IF w < 5 THEN DateOf(s).d \in (7 * w - 6)..(7 * w) ELSE DateOf(s + 7).m # date.m)
Sees(z, t) == (Local(t, z).day - t.day) * 1440 + (Local(t, z).sec - t.sec) \div 60
Summer == (script = <<>> /\ date.m \in {3, 4, 10, 11}) =>
    /\ \A s \in {0, 3599, 3600, 43200, 86399} : Sees("CET-1CEST,M3.5.0,M10.5.0/3", [day |-> n, sec |-> s]) =
          (IF ~Before([day |-> n, sec |-> s], [day |-> Sunday(date.y, 3, 5), sec |-> 3600]) /\ Before([day |-> n, sec |-> s], [day |-> Sunday(date.y, 10, 5), sec |-> 3600]) THEN 120 ELSE 60)
=============================================================================
