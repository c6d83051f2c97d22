------------------------------ MODULE TrSignal ------------------------------
(* Validation of recorded signal-processing calls: operands e.x (times e.s), *)
(* e.b, e.a (times one), as matrices.                                        *)
EXTENDS Signal, TraceBase
VARIABLE l
\* complex data with real coefficients
Cf(e, s) == IF IsCx(e.t) /\ ~IsCx(e.tt) THEN [k \in 1..Len(s) |-> <<s[k], 0>>] ELSE s
Call(e) ==
    LET t == e.t IN
    CASE e.op = "filter" -> e.res = FilterM(t, Cf(e, e.b.d), Cf(e, e.a.d), e.x, e.n)
      [] e.op = "conv" -> e.res = ConvM(t, e.x, e.b)
      [] e.op = "convmtx" -> e.res = ConvMtx(t, e.x, e.n)
      [] e.op = "toeplitz2" -> e.res = Toeplitz2(e.x.d, e.b.d)
      [] e.op = "toeplitz1" -> e.res = Toeplitz1(e.x.d)
      [] e.op = "upsample" -> e.res = Upsample(t, e.x, e.n)
      [] e.op = "downsample" -> e.res = Downsample(e.x, e.n)
      [] e.op = "kron" -> e.res = Kron(t, e.x, e.b)
OK(e) == e.out = "ok" /\ Call(e) /\ e.src = e.x /\ ("b" \in DOMAIN e => e.srcb = e.b)
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
