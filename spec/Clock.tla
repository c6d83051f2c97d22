------------------------------- MODULE Clock --------------------------------
(* The civil calendar and the chronometer.  A moment is a day (0 is the      *)
(* first of January 2000) and a second of the day in universal time, with    *)
(* milliseconds and nanoseconds.                                             *)
EXTENDS Num
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* the day after a date
Tomorrow(d) == IF d.d < DaysIn(d.y, d.m) THEN [d EXCEPT !.d = @ + 1]
               ELSE IF d.m < 12 THEN [d EXCEPT !.d = 1, !.m = @ + 1] ELSE [y |-> d.y + 1, m |-> 1, d |-> 1]
\* the date of a day and the day of a date, by counting eras, years and months that start in March
DayOf(y, m, d) ==
    LET Y == IF m <= 2 THEN y - 1 ELSE y
        M == IF m <= 2 THEN m + 9 ELSE m - 3
        doy == ((153 * M + 2) \div 5) + d - 1
        era == Y \div 400
        yoe == Y % 400
    IN era * 146097 + yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy - 730425
DateOf(n) ==
    LET z == n + 730425
        era == z \div 146097
        doe == z % 146097
        yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
        doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
        mp == (5 * doy + 2) \div 153
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN [y |-> era * 400 + yoe + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - ((153 * mp + 2) \div 5) + 1]
\* 0 is Sunday; the first day was a Saturday
Weekday(n) == (n + 6) % 7
\* the w-th Sunday of a month, where the fifth means the last one
Sunday(y, m, w) ==
    LET f == DayOf(y, m, 1)
        s == f + ((7 - Weekday(f)) % 7) + 7 * (w - 1)
    IN IF s - f < DaysIn(y, m) THEN s ELSE s - 7
(* A zone: minutes east of Greenwich, and for summer time, one hour more     *)
(* from <<month, week, hour>> to <<month, week, hour>>, in local time.       *)
Zone(z) == CASE z = "UTC0" -> [off |-> 0, rule |-> <<>>]
             [] z = "CET-1CEST,M3.5.0,M10.5.0/3" -> [off |-> 60, rule |-> <<<<3, 5, 2>>, <<10, 5, 3>>>>]
             [] z = "EST5EDT,M3.2.0,M11.1.0" -> [off |-> -300, rule |-> <<<<3, 2, 2>>, <<11, 1, 2>>>>]
             [] z = "XST-5:45" -> [off |-> 345, rule |-> <<>>]
             [] z = "XST3:30" -> [off |-> -210, rule |-> <<>>]
             [] z = "XST-14" -> [off |-> 840, rule |-> <<>>]
             [] z = "XST12" -> [off |-> -720, rule |-> <<>>]
Shift(t, minutes) == LET s == t.sec + 60 * minutes IN [day |-> t.day + (s \div 86400), sec |-> s % 86400]
Before(a, b) == a.day < b.day \/ (a.day = b.day /\ a.sec < b.sec)
Local(t, zone) ==
    LET z == Zone(zone)
        std == Shift(t, z.off)
        y == DateOf(std.day).y
        at(r) == [day |-> Sunday(y, r[1], r[2]), sec |-> 3600 * r[3]]
        summer == z.rule # <<>> /\ ~Before(std, at(z.rule[1])) /\ Before(Shift(std, 60), at(z.rule[2]))
    IN IF summer THEN Shift(std, 60) ELSE std
Digit(n) == 48 + n
Two(n) == <<Digit(n \div 10), Digit(n % 10)>>
Four(n) == Two(n \div 100) \o Two(n % 100)
Stamp(t, zone) ==
    LET u == Local(t, zone) d == DateOf(u.day)
    IN Four(d.y) \o Two(d.m) \o Two(d.d) \o Two(u.sec \div 3600) \o Two((u.sec \div 60) % 60) \o Two(u.sec % 60)
\* milliseconds from one moment to a later one, at most about 23 days
Apart(a, b) == ((b.day - a.day) * 86400 + b.sec - a.sec) * 1000 + b.milli - a.milli
(* A decimal number in a text, in thousandths (further digits are dropped).  *)
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE Whole(_, _, _)
Whole(s, i, v) == IF i > Len(s) \/ ~IsDigit(s[i]) THEN <<v, i>> ELSE Whole(s, i + 1, 10 * v + s[i] - 48)
Thousandths(s) ==
    LET w == Whole(s, 1, 0)
        f(k) == IF w[2] <= Len(s) /\ s[w[2]] = 46 /\ w[2] + k <= Len(s) THEN s[w[2] + k] - 48 ELSE 0
    IN w[1] * 1000 + f(1) * 100 + f(2) * 10 + f(3)
IsNumber(s) == s # <<>> /\ IsDigit(s[1]) /\ (\A i \in DOMAIN s : IsDigit(s[i]) \/ s[i] = 46) /\ Cardinality({i \in DOMAIN s : s[i] = 46}) <= 1
Before12 == <<69, 108, 97, 112, 115, 101, 100, 32, 116, 105, 109, 101, 32, 105, 115, 32>>      \* "Elapsed time is "
After12 == <<32, 115, 101, 99, 111, 110, 100, 115, 46, 10>>                                     \* " seconds.\n"
\* six digits are printed
Says(txt, ms) ==
    /\ Len(txt) > Len(Before12) + Len(After12)
    /\ SubSeq(txt, 1, Len(Before12)) = Before12
    /\ SubSeq(txt, Len(txt) - Len(After12) + 1, Len(txt)) = After12
    /\ \E s \in {SubSeq(txt, Len(Before12) + 1, Len(txt) - Len(After12))} :
          IsNumber(s) /\ \E d \in {Thousandths(s) - ms} : d <= 1 + (ms \div 100000) /\ -d <= 1 + (ms \div 100000)
=============================================================================
