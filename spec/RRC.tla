-------------------------------- MODULE RRC --------------------------------
(* The square root of the raised-cosine spectrum with roll-off A/B at the    *)
(* frequency L m / N, in fixed point (times 2^20), and the frequency samples *)
(* of a symmetric sequence of taps.                                          *)
EXTENDS Fourier
\* |f| - (1-alpha)/2 as a fraction of the whole quarter turn 0 .. alpha
RootSpec(L, m, N, A, B) ==
    LET f2 == 2 * B * L * Abs(m) IN                                \* 2 B N |f|
    IF f2 > N * (B + A) THEN 0
    ELSE IF f2 <= N * (B - A) THEN F20
    ELSE CosK(f2 - N * (B - A), 8 * A * N)
\* sum over the taps of g(i) cos(2 pi m (i-c)/N), times 2^20
CosSum(g, m, N, ct) == FoldLeft(LAMBDA acc, i : acc + Mul20(g[i], ct[((i - 1 - (N-1) \div 2) * m) % N]), 0, [i \in 1..N |-> i])
IsTaps(g, L, A, B, N) ==
    LET ct == IF N \in Sizes THEN CosT[N] ELSE [k \in 0..(N-1) |-> CosK(k, N)]
        G0 == CosSum(g, 0, N, ct) \div 16 IN
    /\ Len(g) = N
    /\ \A i \in 1..N : Abs(g[i]) <= F20 + 10 /\ Abs(g[i] - g[N + 1 - i]) <= 2
    /\ Near(FoldLeft(LAMBDA acc, i : acc + Mul20(g[i], g[i]), 0, [i \in 1..N |-> i]), F20, 20 + 3 * N)
    /\ \A m \in 0..((N-1) \div 2) : Near(CosSum(g, m, N, ct) \div 16, Mul20(G0, RootSpec(L, m, N, A, B)), 40 + N)
=============================================================================
