------------------------------- MODULE Text --------------------------------
(* The textual form of matrices: a text is a sequence of character codes.    *)
(* Rows are separated by ';' or LF, elements by any run of space, tab, comma *)
(* and CR; one pair of enclosing brackets is ignored.                        *)
EXTENDS Mat

IsSpace(ch) == ch \in {32, 9, 44, 13}
IsRowSep(ch) == ch \in {59, 10}
IsDigit(ch) == ch >= 48 /\ ch <= 57

\* A number being read: n significant digits seen, sign, mantissa, decimals seen
\* (or -1), exponent part (es = 0: none, 1: sign expected, 2: digits).
NoTok == [n |-> 0, neg |-> FALSE, m |-> 0, fd |-> -1, es |-> 0, eneg |-> FALSE, e |-> 0]

TokAdd(t, ch) ==
    IF t.es = 0 THEN
        IF IsDigit(ch) THEN [t EXCEPT !.n = @ + 1, !.m = @ * 10 + (ch - 48), !.fd = IF @ >= 0 THEN @ + 1 ELSE @]
        ELSE IF ch = 45 THEN [t EXCEPT !.n = @ + 1, !.neg = TRUE]
        ELSE IF ch = 43 THEN [t EXCEPT !.n = @ + 1]
        ELSE IF ch = 46 THEN [t EXCEPT !.n = @ + 1, !.fd = 0]
        ELSE [t EXCEPT !.es = 1]                                   \* 'e' or 'E'
    ELSE IF ch = 45 THEN [t EXCEPT !.es = 2, !.eneg = TRUE]
    ELSE IF ch = 43 THEN [t EXCEPT !.es = 2]
    ELSE [t EXCEPT !.es = 2, !.e = @ * 10 + (ch - 48)]

\* the value of the number times 10^ps; must come out exactly
TokVal(t, ps) ==
    LET k == (IF t.eneg THEN -t.e ELSE t.e) - (IF t.fd > 0 THEN t.fd ELSE 0) + ps
        v == IF t.m = 0 THEN 0 ELSE IF k >= 0 THEN t.m * (10^k) ELSE t.m \div (10^(-k))
    IN IF t.neg THEN -v ELSE v

\* reading state: closed rows, current row, current number
Start == [rows |-> <<>>, row |-> <<>>, tok |-> NoTok]
EndTok(st, ps) == IF st.tok.n = 0 THEN st ELSE [st EXCEPT !.row = Append(@, TokVal(st.tok, ps)), !.tok = NoTok]
EndRow(st, ps) == LET s2 == EndTok(st, ps) IN [rows |-> Append(s2.rows, s2.row), row |-> <<>>, tok |-> NoTok]
Read1(st, ch, ps) == CASE IsSpace(ch)  -> EndTok(st, ps)
                       [] IsRowSep(ch) -> EndRow(st, ps)
                       [] ch \in {91, 93} -> st
                       [] OTHER -> [st EXCEPT !.tok = TokAdd(@, ch)]

RowsOf(txt, ps) == EndRow(FoldLeft(LAMBDA st, ch : Read1(st, ch, ps), Start, txt), ps).rows
WellFormed(rows) == Len(rows) > 0 /\ Len(rows[1]) > 0 /\ \A i \in 1..Len(rows) : Len(rows[i]) = Len(rows[1])
OfRows(rows) == Mk(Len(rows), Len(rows[1]), LAMBDA i,j : rows[i+1][j+1])
Parse(txt, ps) == OfRows(RowsOf(txt, ps))
=============================================================================
