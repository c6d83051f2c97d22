------------------------------- MODULE TrCode -------------------------------
(* Validation of recorded encodings, state tables and decodings.             *)
EXTENDS CCode, Trellis, TraceBase
VARIABLE l
EncOK(e) == Len(e.res) = Len(e.msgs) /\ \A k \in 1..Len(e.msgs) :
    LET u == [i \in 1..Len(e.msgs[k]) |-> Hard(e.msgs[k][i])] c == Encode(e.gen, e.m, u) IN
    /\ e.res[k].d = c /\ e.res[k].r = Len(c) /\ e.res[k].c = 1
\* tables: for every state of e.st both inputs; out only when it fits in 8 bits
TabOK(e) == Len(e.nx) = 2*Len(e.st) /\ \A k \in 1..Len(e.st) : \A b \in {0,1} :
    /\ e.nx[2*k - 1 + b] = NextState(e.m, e.st[k], b)
    /\ (Len(e.gen) <= 8 => e.ow[2*k - 1 + b] = OutWord(e.gen, e.m, e.st[k], b))
RateOK(e) == Near(e.rate * Len(e.gen), 1048576, Len(e.gen))
\* decoding: y is an integer multiple of 1/s, and the likelihood of a stage is 2^(q y.(+-1) / s), an integer exponent
Corr(e, k, s, b) == LET o == Bits(e.gen, e.m, s, b) n == Len(e.gen) IN SumTo(LAMBDA j : e.y[(k-1)*n + j] * (2*o[j] - 1), 1, n)
RangeOf(e, k) == LET n == Len(e.gen) IN SumTo(LAMBDA j : Abs(e.y[(k-1)*n + j]), 1, n)
Weights(e, n) == [k \in 1..n |-> [s \in 1..(2^e.m) |-> [b \in 1..2 |-> ((Corr(e, k, s-1, b-1) + RangeOf(e, k)) * e.q) \div e.s]]]
RatiosOK(e, n, ns, W, X) ==
    LET Nx(s, b) == X[s+1][b+1] E(k, s, b) == W[k][s+1][b+1] IN
    \E F \in {IF n > 48 THEN ForwardLong(n, ns, Nx, E) ELSE Forward(n, ns, Nx, E)}, B \in {IF n > 48 THEN BackwardLong(n, ns, Nx, E) ELSE Backward(n, ns, Nx, E)} :
        \A k \in 1..n : \E one \in {Total(F, B, ns, Nx, E, k, 1)}, zero \in {Total(F, B, ns, Nx, E, k, 0)} :
            IsRatio(e.lr[k], one, zero, 1000000000) /\ (IF k <= Len(e.lr2) THEN IsRatio(e.lr2[k], one, zero, 1000000000) ELSE TRUE)
DecOK(e) == LET n == Len(e.y) \div Len(e.gen) ns == 2^e.m IN
    /\ Len(e.lr) >= n
    /\ \E W \in {TLCEval(Weights(e, n))}, X \in {TLCEval([s \in 1..ns |-> [b \in 1..2 |-> NextState(e.m, s-1, b-1)]])} : RatiosOK(e, n, ns, W, X)
\* noise-free words are decoded to their message, where the code word determines it (otherwise the ratio is one)
Half == 536870912
AboutOne(lr) == (lr[2] = -29 /\ lr[1] < Half + 100) \/ (lr[2] = -30 /\ lr[1] > 2*Half - 100)
CleanOK(e) == "u" \in DOMAIN e => \A k \in 1..Len(e.u) : AboutOne(e.lr[k]) \/ LET big == e.lr[k][1] > 0 /\ e.lr[k][2] >= -29 IN big = (e.u[k] = 1)
OK(e) == e.out = "ok" /\ CASE e.op = "enc" -> EncOK(e) /\ RateOK(e) [] e.op = "tab" -> TabOK(e) /\ RateOK(e) [] e.op = "dec" -> DecOK(e) /\ CleanOK(e)
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
