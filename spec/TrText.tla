------------------------------- MODULE TrText -------------------------------
(* Validation of recorded parsing and printing.  A parsed matrix is logged   *)
(* times 10^ps; a printed one holds the numbers e.x times 10^e2, and its     *)
(* printed text is read by the specification at the scale 10^(-e2).          *)
EXTENDS Text, TraceBase
VARIABLE l
\* no digit is lost when the numbers of the text are taken at this scale
RECURSIVE Exact(_,_,_)
TokOk(t, ps) == LET k == (IF t.eneg THEN -t.e ELSE t.e) - (IF t.fd > 0 THEN t.fd ELSE 0) + ps IN IF t.m = 0 \/ k >= 0 THEN TRUE ELSE t.m % (10^(-k)) = 0
ReadX(st, ch, ps) == IF (IsSpace(ch) \/ IsRowSep(ch)) /\ st.tok.n > 0 /\ ~TokOk(st.tok, ps) THEN [st EXCEPT !.tok = NoTok, !.row = Append(@, NotInt)]
                     ELSE Read1(st, ch, ps)
Exact(txt, ps, st) == EndRow(FoldLeft(LAMBDA s, ch : ReadX(s, ch, ps), st, Append(txt, 32)), ps).rows
OK(e) ==
    /\ e.out = "ok"
    /\ IF e.op = "parse" THEN LET rows == RowsOf(e.txt, e.ps) IN
            WellFormed(rows) /\ e.res = OfRows(rows) /\ e.kept = 1 /\ "other" \notin DOMAIN e
       ELSE LET rows == Exact(e.txt, -e.e2, Start) IN
            /\ WellFormed(rows) /\ OfRows(rows) = e.x
            /\ e.same = 1 /\ e.bits = 1 /\ e.rr = e.x.r /\ e.cc = e.x.c
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
