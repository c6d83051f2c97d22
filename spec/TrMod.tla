------------------------------- MODULE TrMod -------------------------------
(* Validation of recorded modulation, decisions, noise levels and noise.     *)
EXTENDS Modulation, TraceBase
VARIABLE l
QamOK(e) == LET P == {e.con.d[k] : k \in 1..Len(e.con.d)} IN
    /\ Len(e.con.d) = e.m /\ Size(e.con) = e.m /\ Cardinality(P) = e.m /\ IsConstellation(e.m, P)
    /\ Len(e.dem) = Len(e.y) /\ \A k \in 1..Len(e.y) : Nearest(P, e.y[k], e.dem[k])
    /\ Len(e.dev) = Len(e.db2) /\ \A k \in 1..Len(e.db2) : IsDeviation(e.m, P, e.db2[k], e.dev[k])
Sq(t, v) == IF IsCx(t) THEN v[1]*v[1] + v[2]*v[2] ELSE v*v
Comp(n, j) == [k \in 1..Len(n) |-> n[k][j]]
MeanOK(x) == LET s == SumSeq(x) q == FoldLeft(LAMBDA acc, v : acc + v*v, 0, x) IN     \* |mean| <= 5 sigma / sqrt(n)
    NCmp(NMul(OfInt(Abs(s)), OfInt(Abs(s))), NMul(<<25>>, OfInt(q))) <= 0
\* the power of the components: N0/2 = (mean |s|^2) ovs / (2 10^(dB/10)); sums of n components with scale q
PowerOK(e, x) == LET n == Len(x) q == FoldLeft(LAMBDA acc, v : acc + v*v, 0, x) P == FoldLeft(LAMBDA acc, v : acc + Sq(e.t, v), 0, e.x.d) IN
    \* q / (n qs^2) = P ovs / (2 n s^2 10^(h/20)), where P/s^2/n is the power of the signal
    Close(NMul(NMul(OfInt(q), DbNum(e.db2)), OfInt(2 * e.s * e.s)), NMul(NMul(OfInt(P), OfInt(e.ovs)), NMul(DbDen(e.db2), NMul(OfInt(e.q), OfInt(e.q)))), 12)
AwgnOK(e) ==
    /\ e.src = e.x /\ SameShape(e.noise, e.x) /\ ElemsOk(e.noise)
    /\ \A k \in 1..Len(e.noise.d) : IF IsCx(e.t) THEN Sane(e.noise.d[k][1]) /\ Sane(e.noise.d[k][2]) ELSE Sane(e.noise.d[k])
    /\ Size(e.x) >= 2000 =>
         IF IsCx(e.t) THEN LET re == Comp(e.noise.d, 1) im == Comp(e.noise.d, 2) IN
              /\ PowerOK(e, re) /\ PowerOK(e, im) /\ MeanOK(re) /\ MeanOK(im)
              /\ LET c == SumSeq([k \in 1..Len(re) |-> re[k]*im[k]]) q == FoldLeft(LAMBDA acc, v : acc + v*v, 0, re) IN Abs(c) * 10 <= q
         ELSE /\ PowerOK(e, e.noise.d) /\ MeanOK(e.noise.d)
              /\ LET c == SumSeq([k \in 1..(Len(e.noise.d)-1) |-> e.noise.d[k]*e.noise.d[k+1]]) q == FoldLeft(LAMBDA acc, v : acc + v*v, 0, e.noise.d) IN Abs(c) * 10 <= q
OK(e) == /\ e.out = "ok"
         /\ CASE e.op = "bpsk" -> e.src = e.x /\ e.res = Map1(e.x, LAMBDA v : IF v = 0 THEN -1 ELSE 1)
              [] e.op = "qam" -> QamOK(e)
              [] e.op = "awgn" -> AwgnOK(e)
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
