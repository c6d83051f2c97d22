-------------------------------- MODULE Svd --------------------------------
(* What a singular value decomposition is, as a relation between integer     *)
(* matrices and fixed-point factors: u and v times 2^20, singular values     *)
(* times 2^14 (below 64).                                                    *)
EXTENDS Solver
F20 == 1048576
Mul20(a, b) == LET x == Abs(a) y == Abs(b) IN Sgn(a) * Sgn(b) * (((x * (y \div 1024)) + ((x * (y % 1024)) \div 1024)) \div 1024)
Below(m, b) == ElemsOk(m) /\ \A k \in 1..Len(m.d) : Abs(m.d[k]) <= b
SumSq(A) == FoldLeft(LAMBDA acc, x : acc + x * x, 0, A.d)
RECURSIVE SqrtUp(_,_)
SqrtUp(n, r) == IF r * r >= n THEN r ELSE SqrtUp(n, r + 1)
Norm(A) == SqrtUp(SumSq(A), 0)
\* columns i and j of m are orthonormal
Ortho(m, i, j) == Near(Dot(LAMBDA k : Mul20(At(m,k,i), At(m,k,j)), m.r), IF i = j THEN F20 ELSE 0, 60)
IsSvd(A, u, s, v) ==
    LET p == Min2(A.r, A.c) N == Norm(A) nz == {k \in 0..(p-1) : Lin(s,k) > 40 + 2 * N} IN
    /\ u.r = A.r /\ u.c = p /\ v.r = A.c /\ v.c = p /\ s.r = p /\ s.c = 1
    /\ Below(u, F20 + 100) /\ Below(v, F20 + 100) /\ Below(s, F20 + 100)
    /\ \A k \in 0..(p-1) : Lin(s,k) >= 0
    /\ \A i \in 0..(A.r-1), j \in 0..(A.c-1) : Near(Dot(LAMBDA k : Mul20(Mul20(At(u,i,k), At(v,j,k)), Lin(s,k)), p), 16384 * At(A,i,j), 3 * p + N)
    /\ \A i, j \in (IF A.r >= A.c THEN 0..(p-1) ELSE nz) : i <= j => Ortho(v, i, j)
    /\ \A i, j \in (IF A.r >= A.c THEN nz ELSE 0..(p-1)) : i <= j => Ortho(u, i, j)
    /\ Near(Dot(LAMBDA k : Mul20(Lin(s,k), Lin(s,k)), p), 256 * SumSq(A), 10 + SumSq(A) \div 30)
    /\ Cardinality(nz) <= Rank(A)
=============================================================================
