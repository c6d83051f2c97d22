------------------------------- MODULE MCRRC -------------------------------
(* Properties of the specified spectrum on a grid of parameters: it lies     *)
(* between 0 and 1, falls with the frequency, fulfils the Nyquist criterion  *)
(* (the squares at f and 1-f add up to one), and the taps that it defines    *)
(* satisfy the relation that the implementation is held to.                  *)
EXTENDS RRC, Json
CONSTANTS Emit, Ns, Ls, As, B
VARIABLES L, A, N, m
vars == <<L, A, N, m>>
Init == L \in Ls /\ A \in As /\ N \in Ns /\ m = -1
Next == m < N /\ m' = m + 1 /\ UNCHANGED <<L, A, N>> /\ (Emit /\ m = -1 => PrintT(ToJson([L |-> L, A |-> A, N |-> N, B |-> B])))
Spec == Init /\ [][Next]_vars
H(k) == RootSpec(L, k, N, A, B)
InRange == m >= 0 => H(m) \in 0..(F20+2) /\ (m > 0 => H(m) <= H(m-1) + 2) /\ H(m) = H(-m)
\* L m / N = f and the grid point of 1 - f is (N - L m) / N: the same spectrum with L = 1
Nyquist == (m >= 0 /\ L * m <= N) =>
    LET a == RootSpec(1, L * m, N, A, B) b == RootSpec(1, N - L * m, N, A, B) IN
    a = H(m) /\ ((A = 0 /\ 2 * L * m = N) \/ Abs(Mul20(a, a) + Mul20(b, b) - F20) <= 12)
\* the inverse transform of the spectrum, normalised, is accepted
RECURSIVE SqrtF(_,_)
SqrtF(x, y) == LET z == (y + x \div y) \div 2 IN IF z >= y THEN y ELSE SqrtF(x, z)
Taps == LET c == CosT[N]
            raw == [i \in 1..N |-> SumTo(LAMBDA k : Mul20(H(k), c[(k * (i - 1 - (N-1) \div 2)) % N]), -((N-1) \div 2), (N-1) \div 2) \div N]
            e == FoldLeft(LAMBDA acc, i : acc + Mul20(raw[i], raw[i]), 0, [i \in 1..N |-> i])
            s == SqrtF(e, F20) IN       \* sqrt(e/2^20) = s/2^10
        [i \in 1..N |-> (raw[i] * 1024) \div s]
Roundtrip == (m = -1 /\ N \in 2..9) => LET g == Taps IN
    /\ \A i \in 1..N : Abs(g[i] - g[N+1-i]) <= 2
    /\ LET G0 == CosSum(g, 0, N, CosT[N]) \div 16 IN \A k \in 0..((N-1) \div 2) : Near(CosSum(g, k, N, CosT[N]) \div 16, Mul20(G0, H(k)), 40 + N)
=============================================================================
