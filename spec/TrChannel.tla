----------------------------- MODULE TrChannel -----------------------------
(* Validation of recorded calls of one channel object.  Taps and symbols are *)
(* integers times 1/s, received values integers times 1/s^2.                 *)
EXTENDS Channel, Trellis, TraceBase
VARIABLE l
Syms(e, u) == [k \in 1..Len(u) |-> e.a[u[k] + 1]]
MaxOf(d, ns) == FoldLeft(LAMBDA acc, s : Max2(acc, Max2(d[s][1], d[s][2])), 0, [s \in 1..ns |-> s])
LROK(e, c, y, q) ==
    LET n == Len(y) ns == NStates(e.h, e.a) IN
    \E X \in {TLCEval([s \in 1..ns |-> [b \in 1..2 |-> NextSt(e.h, e.a, s-1, b-1)]])},
       D \in {TLCEval([k \in 1..n |-> [s \in 1..ns |-> [b \in 1..2 |-> (y[k] - OutputOf(e.h, e.a, s-1, b-1)) * (y[k] - OutputOf(e.h, e.a, s-1, b-1))]]])} :
    \E M \in {TLCEval([k \in 1..n |-> MaxOf(D[k], ns)])} :
       LET Nx(s, b) == X[s+1][b+1] E(k, s, b) == q * (M[k] - D[k][s+1][b+1]) IN
       \E F \in {IF n > 48 THEN ForwardLong(n, ns, Nx, E) ELSE Forward(n, ns, Nx, E)}, B \in {IF n > 48 THEN BackwardLong(n, ns, Nx, E) ELSE Backward(n, ns, Nx, E)} :
          \A k \in 1..n : \E one \in {Total(F, B, ns, Nx, E, k, 1)}, zero \in {Total(F, B, ns, Nx, E, k, 0)} :
             IsRatio(c.lr[k], one, zero, IF e.t = "f" THEN 5000 ELSE 1000000000)
IsCol(m, d) == m.d = d /\ m.r = Len(d) /\ m.c = 1
CallOK(e, q, r) ==
    CASE q.op = "enc" -> IsCol(r.res, EncodeISI(e.h, e.a, q.x, q.s0))
      [] q.op = "mlse" -> IsML(e.h, e.a, q.s0, q.y, r.res.d)
      [] q.op = "clean" -> q.y = Convolved(q.x, e.h) /\ IsCol(r.res, q.x)
      [] q.op = "link" -> IF q.full = 1 THEN IsCol(r.res, q.x)
                          ELSE IsML(e.h, e.a, q.s0, EncodeISI(e.h, e.a, q.x, q.s0), r.res.d)
      [] q.op = "bcjr" -> Len(r.lr) = Len(q.y) /\ LROK(e, r, q.y, q.q)
OK(e) == e.out = "ok" /\ Len(e.res) = Len(e.calls) /\ \A k \in 1..Len(e.calls) : CallOK(e, e.calls[k], e.res[k])
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
