------------------------------- MODULE Solver -------------------------------
(* Gaussian elimination with pivoting over the rationals, in the fraction    *)
(* free form: before step k the entry (i,j) of the partially reduced matrix  *)
(* is M(i,j)/prev.  Where several rows offer the same pivot any of them may  *)
(* be taken, so that a factorisation is a nondeterministic transition        *)
(* system; what is required of an implementation is that its outcome is one  *)
(* that some run can have, and that its factors multiply back.               *)
EXTENDS Mat
\* one fraction-free step: rows and columns k.. of m with pivot row i swapped to k
Step(m, prev, k, i) ==
    LET s == SwapRows(m, i, k) IN
    Mk(m.r, m.c, LAMBDA a, b : IF a <= k \/ b <= k THEN At(s, a, b)
                               ELSE (At(s,k,k) * At(s,a,b) - At(s,a,k) * At(s,k,b)) \div prev)
MaxPiv(m, k) == LET S == {Abs(At(m, i, k)) : i \in k..(m.r-1)} IN CHOOSE v \in S : \A w \in S : w <= v
PivRows(m, k) == {i \in k..(m.r-1) : Abs(At(m, i, k)) = MaxPiv(m, k)}
\* the pivot mx/|prev| is below the tolerance tn/td: 1 yes, 0 no, 2 too close to tell after rounding
TooSmall(mx, prev, tn, td) ==
    LET t == tn * Abs(prev) q == t \div td r == t % td w == q \div 1000 IN
    IF mx = 0 THEN 1
    ELSE IF Abs(prev) = 1 THEN (IF mx < q \/ (mx = q /\ r > 0) THEN 1 ELSE 0)
    ELSE IF mx > q + w + 1 THEN 0
    ELSE IF mx < q - w THEN 1
    ELSE IF w > 0 THEN 2
    ELSE IF mx = q THEN (IF r * 1000 > t THEN 1 ELSE 2)
    ELSE IF (td - r) * 1000 > t THEN 0 ELSE 2
\* the possible outcomes of a pivoted factorisation from step k on
RECURSIVE Outcomes(_,_,_,_,_)
Outcomes(m, prev, k, tn, td) ==
    IF k = m.r THEN {1}
    ELSE LET mx == MaxPiv(m, k) s == TooSmall(mx, prev, tn, td)
             go == UNION {Outcomes(Step(m, prev, k, i), At(m, i, k), k + 1, tn, td) : i \in PivRows(m, k)} IN
         IF s = 1 THEN {0} ELSE IF s = 0 THEN go ELSE {0} \cup go
\* the rank: columns without pivot are skipped
RECURSIVE RankFrom(_,_,_,_)
RankFrom(m, prev, k, j) ==
    IF k = m.r \/ j = m.c THEN k
    ELSE LET P == {i \in k..(m.r-1) : At(m, i, j) # 0} IN
         IF P = {} THEN RankFrom(m, prev, k, j + 1)
         ELSE LET i == CHOOSE i \in P : \A q \in P : Abs(At(m,i,j)) <= Abs(At(m,q,j))
                  s == SwapRows(m, i, k) IN
              RankFrom(Mk(m.r, m.c, LAMBDA a, b : IF a <= k \/ b <= j THEN At(s, a, b)
                              ELSE (At(s,k,j) * At(s,a,b) - At(s,a,j) * At(s,k,b)) \div prev), At(s,k,j), k + 1, j + 1)
Rank(m) == RankFrom(m, 1, 0, 0)
\* leading principal minors
Sub(m, k) == Mk(k, k, LAMBDA i, j : At(m, i, j))
Lead(m) == [k \in 1..m.r |-> Det(Sub(m, k))]
IsPow2(a) == Abs(a) \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192}
\* the unpivoted factorisation: 1 succeeds, 0 meets a zero pivot, 2 depends on rounding
Unpivoted(m) == LET D == Lead(m) Z == {k \in 1..(m.r-1) : D[k] = 0} IN
    IF Z = {} THEN (IF D[m.r] = 0 THEN 2 ELSE 1)
    ELSE LET k == CHOOSE k \in Z : \A q \in Z : k <= q IN IF \A j \in 1..(k-1) : IsPow2(D[j]) THEN 0 ELSE 2
\* row sums of absolute values
RowAbs(m, i) == FoldLeft(LAMBDA acc, j : acc + Abs(At(m, i, j)), 0, [j \in 1..m.c |-> j-1])
\* the sum over k of F(k), 0 <= k < n
Dot(F(_), n) == FoldLeft(LAMBDA acc, k : acc + F(k), 0, [k \in 1..n |-> k-1])
=============================================================================
