-------------------------------- MODULE Stat --------------------------------
(* Reductions and elementwise maps.  A vector or a scalar is reduced over    *)
(* all its elements, any other matrix separately over each column.           *)
EXTENDS Mat

Groups(m) == IF m.r = 1 \/ m.c = 1 THEN <<m.d>> ELSE [j \in 1..m.c |-> Col(m, j-1).d]
RowOf(s) == [r |-> 1, c |-> Len(s), d |-> s]

SumT(t, d) == FoldLeft(LAMBDA acc, v : EAdd(t, acc, v), Zero(t), d)
SumSq(d)  == FoldLeft(LAMBDA acc, v : acc + v*v, 0, d)
\* the first position of the extreme
ArgMin(d) == LET m == FoldLeft(LAMBDA a, v : IF v < a THEN v ELSE a, d[1], d) IN (CHOOSE k \in 1..Len(d) : d[k] = m /\ \A j \in 1..(k-1) : d[j] # m) - 1
ArgMax(d) == LET m == FoldLeft(LAMBDA a, v : IF v > a THEN v ELSE a, d[1], d) IN (CHOOSE k \in 1..Len(d) : d[k] = m /\ \A j \in 1..(k-1) : d[j] # m) - 1
Diff(d)   == [k \in 1..(Len(d)-1) |-> d[k+1] - d[k]]
\* n^2 times the population variance
VarN(d)   == Len(d) * SumSq(d) - SumSeq(d) * SumSeq(d)

\* r is the square root of x rounded in some direction / truncated
IsRoot(r, x)  == r >= 0 /\ r < 46000 /\ (r = 0 \/ (r-1)*(r-1) <= x) /\ x <= (r+1)*(r+1)
IsIRoot(r, x) == r >= 0 /\ r*r <= x /\ x < (r+1)*(r+1)

\* natural logarithms of the first primes, times q
LnP(p, q) == CASE q = 1000000 -> (CASE p = 2 -> 693147 [] p = 3 -> 1098612 [] p = 5 -> 1609438 [] p = 7 -> 1945910)
               [] q = 100000000 -> (CASE p = 2 -> 69314718 [] p = 3 -> 109861229 [] p = 5 -> 160943791 [] p = 7 -> 194591015)
RECURSIVE Ln(_,_)
Ln(n, q) == IF n = 1 THEN 0 ELSE LET p == CHOOSE p \in {2, 3, 5, 7} : n % p = 0 IN LnP(p, q) + Ln(n \div p, q)
=============================================================================
