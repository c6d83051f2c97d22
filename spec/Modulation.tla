----------------------------- MODULE Modulation -----------------------------
(* Constellations, decisions and noise levels.  Points are pairs of integers *)
(* (times 2), received values times 16.  Levels in dB are given in half dB.  *)
EXTENDS Mat, Big
\* 10^(k/20) times 10^8
T20 == <<100000000, 112201845, 125892541, 141253754, 158489319, 177827941, 199526231, 223872114, 251188643, 281838293,
         316227766, 354813389, 398107171, 446683592, 501187234, 562341325, 630957344, 707945784, 794328235, 891250938>>
\* 10^(h/20) as a fraction of naturals: numerator over denominator
DbNum(h) == LET q == h \div 20 IN NMul(OfInt(T20[(h % 20) + 1]), IF q >= 0 THEN NPow(<<10>>, q) ELSE <<1>>)
DbDen(h) == LET q == h \div 20 IN NMul(OfInt(100000000), IF q < 0 THEN NPow(<<10>>, -q) ELSE <<1>>)
\* a = b up to one part in n
Close(a, b, n) == LET d == IF NCmp(a, b) >= 0 THEN NSub(a, b) ELSE NSub(b, a) IN NCmp(NMul(d, OfInt(n)), b) <= 0
Grid(R, C) == {<<2*i - (R-1), 2*j - (C-1)>> : i \in 0..(R-1), j \in 0..(C-1)}
\* as square as the order allows: one side is at most twice the other
IsConstellation(M, P) == \E R \in 1..M : M % R = 0 /\ R <= 2 * (M \div R) /\ M \div R <= 2 * R /\ P = Grid(R, M \div R)
Energy(P) == FoldSet(LAMBDA p, acc : acc + p[1]*p[1] + p[2]*p[2], 0, P)          \* sum of |2 s|^2
Dist(y, p) == (y[1] - 8*p[1]) * (y[1] - 8*p[1]) + (y[2] - 8*p[2]) * (y[2] - 8*p[2])
Nearest(P, y, p) == p \in P /\ \A q \in P : Dist(y, p) <= Dist(y, q)
Bits(M) == CHOOSE b \in 1..20 : 2^b = M
\* d (times 10^6) is the square root of half the average bit energy over 10^(h/20)
\*   d^2 * 2 * bits * 10^(h/20) * 4 M = Energy * 10^12
IsDeviation(M, P, h, d) == d > 1000 /\
    Close(NMul(NMul(OfInt(d), OfInt(d)), NMul(DbNum(h), OfInt(8 * Bits(M) * M))), NMul(NMul(OfInt(Energy(P)), DbDen(h)), NPow(<<10>>, 12)), Max2(1, Min2(d \div 4, 1000000)))
=============================================================================
