------------------------------- MODULE TrStat -------------------------------
(* Validation of recorded reductions and maps.  Operand elements appear       *)
(* times e.s, results times e.q; e.k relates the two where a quotient or a    *)
(* root is taken.                                                            *)
EXTENDS Stat, TraceBase
VARIABLE l
IsInt(t) == t \in {"i", "b", "u"}
RowIs(m, s, F(_,_)) == m.r = 1 /\ m.c = Len(s) /\ Len(m.d) = Len(s) /\ \A k \in 1..Len(s) : F(s[k], m.d[k])
ElemIs(a, m, F(_,_)) == SameShape(a, m) /\ Len(a.d) = Len(m.d) /\ \A k \in 1..Len(m.d) : F(a.d[k], m.d[k])
NearE(t, a, b, tol) == IF IsCx(t) THEN Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol) ELSE Near(a, b, tol)
ScaleE(t, k, a) == IF IsCx(t) THEN <<k * a[1], k * a[2]>> ELSE k * a
MeanIs(t, k, d, res) == IF IsInt(t) THEN res = TDiv(SumSeq(d), Len(d)) ELSE NearE(t, res, ScaleE(t, k, SumT(t, d)), 1)

Rounded(e, a, v) == LET step == IF "dec" \in DOMAIN e /\ e.dec > 0 THEN e.s \div (10^(e.dec)) ELSE e.s
                    IN IF step <= 1 THEN Near(v, a, 1) ELSE v % step = 0 /\ 2 * Abs(v - a) <= step

MatOK(e) ==
    LET m == e.mm t == e.t g == Groups(m) IN
    CASE e.op = "sum"  -> RowIs(e.res, g, LAMBDA d, v : v = SumT(t, d))
      [] e.op = "mean" -> RowIs(e.res, g, LAMBDA d, v : MeanIs(t, e.k, d, v))
      [] e.op = "min"  -> RowIs(e.res, g, LAMBDA d, v : v = ArgMin(d))
      [] e.op = "max"  -> RowIs(e.res, g, LAMBDA d, v : v = ArgMax(d))
      [] e.op = "norm" -> RowIs(e.res, g, LAMBDA d, v : IF IsInt(t) THEN IsIRoot(v, SumSq(d)) ELSE IsRoot(v, e.k * e.k * SumSq(d)))
      [] e.op = "abs"  -> ElemIs(m, e.res, LAMBDA a, v : IF IsCx(t) THEN v[2] = 0 /\ IsRoot(v[1], e.k * e.k * (a[1]*a[1] + a[2]*a[2])) ELSE v = Abs(a))
      [] e.op = "sign" -> ElemIs(m, e.res, LAMBDA a, v : v = Sgn(a))
      [] e.op = "log"  -> ElemIs(m, e.res, LAMBDA a, v : Near(v, Ln(a, e.q) - Ln(e.s, e.q), 12))
      [] e.op = "round" -> ElemIs(m, e.res, LAMBDA a, v : Rounded(e, a, v))
      [] e.op = "real" -> ElemIs(m, e.res, LAMBDA a, v : v = a[1])
      [] e.op = "imag" -> ElemIs(m, e.res, LAMBDA a, v : v = a[2])
      [] e.op = "mag"  -> ElemIs(m, e.res, LAMBDA a, v : v = a[1]*a[1] + a[2]*a[2])
      [] e.op = "conj" -> ElemIs(m, e.res, LAMBDA a, v : v = EConj(a))
      [] e.op = "to_complex" -> ElemIs(m, e.res, LAMBDA a, v : v = <<a, 0>>)
VecOK(e) ==
    LET v == e.v IN
    CASE e.op = "vsum"  -> e.res = Wrap(e.t, SumSeq(v))
      [] e.op = "vmean" -> MeanIs(e.t, e.k, v, e.res)
      [] e.op = "vvar"  -> LET x == e.k * VarN(v) IN Near(e.res, x, 2 + (IF e.t = "f" THEN x \div 50000 ELSE 0))
      [] e.op = "vstdv" -> IsRoot(e.res, e.k * e.k * VarN(v))
      [] e.op = "vabs"  -> e.res = [k \in 1..Len(v) |-> Abs(v[k])]
      [] e.op = "vdiff" -> e.res = Diff(v)
OK(e) == e.out = "ok" /\ (IF "v" \in DOMAIN e THEN VecOK(e) /\ e.src = e.v ELSE MatOK(e) /\ e.src = e.mm)
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
