------------------------------ MODULE Fourier ------------------------------
(* Cosine and sine in fixed point (times 2^20) and the discrete Fourier      *)
(* transform of integer sequences.                                           *)
EXTENDS Mat
F20 == 1048576
TwoPi == 6588397                        \* 2 pi times 2^20
\* product of two numbers below 2^20 (times 2^20)
Mul20(a, b) == LET x == Abs(a) y == Abs(b) IN Sgn(a) * Sgn(b) * (((x * (y \div 1024)) + ((x * (y % 1024)) \div 1024)) \div 1024)
\* series for an angle x of at most pi/4
CosS(x) == LET q == Mul20(x, x) IN F20 - Mul20(q, F20 \div 2 - Mul20(q, F20 \div 24 - Mul20(q, F20 \div 720 - q \div 40320)))
SinS(x) == LET q == Mul20(x, x) IN Mul20(x, F20 - Mul20(q, F20 \div 6 - Mul20(q, F20 \div 120 - q \div 5040)))
\* the angle of k/n turns, for 0 <= k/n <= 1/8
Ang(k, n) == IF n < 30000 THEN (TwoPi \div n) * k + ((TwoPi % n) * k) \div n
             ELSE LET f == ((k * 1024) \div n) * 1024 + (((k * 1024) % n) * 1024) \div n       \* k/n times 2^20
                  IN (f * (TwoPi \div 1024) + (f * (TwoPi % 1024)) \div 1024) \div 1024
\* cosine of k/n turns by reduction to the first octant
RECURSIVE CosK(_,_)
SinOct(k, n) == IF 8*k <= n THEN SinS(Ang(k, n)) ELSE CosS(Ang(n - 4*k, 4*n))     \* 0 <= k/n <= 1/4
CosOct(k, n) == IF 8*k <= n THEN CosS(Ang(k, n)) ELSE SinS(Ang(n - 4*k, 4*n))
CosK(k, n) == IF 2*k > n THEN CosK(n - k, n) ELSE IF 4*k <= n THEN CosOct(k, n) ELSE -CosOct(n - 2*k, 2*n)
SinK(k, n) == IF 2*k > n THEN -(IF 4*(n-k) <= n THEN SinOct(n-k, n) ELSE SinOct(n - 2*(n-k), 2*n))
              ELSE IF 4*k <= n THEN SinOct(k, n) ELSE SinOct(n - 2*k, 2*n)
Sizes == (1..64) \cup {128, 256, 512, 1024}
CosT == [n \in Sizes |-> [k \in 0..(n-1) |-> CosK(k, n)]]
SinT == [n \in Sizes |-> [k \in 0..(n-1) |-> SinK(k, n)]]
SumAbs(x) == FoldLeft(LAMBDA acc, v : acc + Abs(v), 0, x)
\* real and imaginary part of the Fourier sum at frequency k, times 2^20
DftRe(x, k) == LET n == Len(x) c == CosT[n] IN FoldLeft(LAMBDA acc, j : IF x[j] = 0 THEN acc ELSE acc + x[j] * c[((j-1)*k) % n], 0, [j \in 1..n |-> j])
DftIm(x, k) == LET n == Len(x) c == SinT[n] IN FoldLeft(LAMBDA acc, j : IF x[j] = 0 THEN acc ELSE acc - x[j] * c[((j-1)*k) % n], 0, [j \in 1..n |-> j])
=============================================================================
