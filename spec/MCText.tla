------------------------------- MODULE MCText -------------------------------
(* Writing matrices as text in every allowed way, symbol by symbol: whenever *)
(* the written text is complete, reading it gives back the rows that were    *)
(* written.  Every complete text is printed and read by the implementation.  *)
EXTENDS Text, Json
CONSTANTS MaxLen, MaxRows, MaxCols, Full, Emit
VARIABLES txt, rows, row, num, brk
vars == <<txt, rows, row, num, brk>>
\* brk: 0 no bracket, 1 open, 2 closed
Init == txt = <<>> /\ rows = <<>> /\ row = <<>> /\ num = <<>> /\ brk = 0
Put(ch) == txt' = Append(txt, ch)
Close == IF num = <<>> THEN row ELSE Append(row, FoldLeft(LAMBDA a, ch : IF ch = 45 THEN a ELSE a * 10 + (ch - 48), 0, num) * (IF num[1] = 45 THEN -1 ELSE 1))
FitsRow == IF rows = <<>> THEN TRUE ELSE Len(Close) = Len(rows[1])
NumOk == IF num = <<>> THEN TRUE ELSE num[Len(num)] # 45
Blank == \E ch \in IF Full THEN {32, 9, 44, 13} ELSE {32, 44} :
           /\ NumOk /\ (Close # <<>> \/ ch # 44 \/ Full) /\ Put(ch) /\ row' = Close /\ num' = <<>> /\ UNCHANGED <<rows, brk>>
Digit == \E ch \in IF Full THEN {48, 49, 55} ELSE {48, 55} : /\ Len(Close) <= (IF rows = <<>> THEN MaxCols ELSE Len(rows[1])) /\ (Len(row) < (IF rows = <<>> THEN MaxCols ELSE Len(rows[1])))
             /\ brk < 2 /\ Len(num) < 2 /\ Put(ch) /\ num' = Append(num, ch) /\ UNCHANGED <<rows, row, brk>>
Minus == /\ num = <<>> /\ brk < 2 /\ Len(row) < (IF rows = <<>> THEN MaxCols ELSE Len(rows[1]))
         /\ Put(45) /\ num' = <<45>> /\ UNCHANGED <<rows, row, brk>>
NewRow == \E ch \in {59, 10} : /\ NumOk /\ Close # <<>> /\ brk < 2 /\ FitsRow /\ Len(rows) + 1 < MaxRows
             /\ Put(ch) /\ rows' = Append(rows, Close) /\ row' = <<>> /\ num' = <<>> /\ UNCHANGED brk
Open == brk = 0 /\ txt = <<>> /\ Put(91) /\ brk' = 1 /\ UNCHANGED <<rows, row, num>>
Shut == /\ brk = 1 /\ NumOk /\ Close # <<>> /\ FitsRow
        /\ Put(93) /\ brk' = 2 /\ row' = Close /\ num' = <<>> /\ UNCHANGED rows
Complete == brk # 1 /\ NumOk /\ Close # <<>> /\ FitsRow
Next == /\ Len(txt) < MaxLen
        /\ (brk = 2 => FALSE)
        /\ (Blank \/ Digit \/ Minus \/ NewRow \/ Open \/ Shut)
        /\ (Emit /\ Complete' => PrintT(ToJson(txt')))
Spec == Init /\ [][Next]_vars
ReadBack == Complete => RowsOf(txt, 0) = Append(rows, Close) /\ WellFormed(RowsOf(txt, 0)) /\ RowsOf(txt, 2) = [i \in 1..(Len(rows)+1) |-> [j \in 1..Len(Append(rows, Close)[i]) |-> 100 * Append(rows, Close)[i][j]]]
=============================================================================
