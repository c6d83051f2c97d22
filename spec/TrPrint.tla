------------------------------ MODULE TrPrint -------------------------------
(* Validation of recorded output: what is printed is appended to the text of *)
(* the stream, and the printed object is unchanged.                          *)
EXTENDS Print, TraceBase
VARIABLES l, text
OK(e) == e.out = "ok" /\ e.kept = 1 /\ \E new \in {text \o ValText(e.v)} : e.txt = new
Init == l = 1 /\ text = <<>>
Begin == Tr[l].op = "begin" /\ text' = <<>>
Show == Tr[l].op = "show" /\ (OK(Tr[l]) = TRUE) /\ text' = Tr[l].txt
Next == l <= Len(Tr) /\ (IF Tr[l].op = "begin" THEN Begin ELSE Show) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, text>>
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
