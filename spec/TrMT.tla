-------------------------------- MODULE TrMT --------------------------------
(* Validation of recorded histories of random number generators: every draw  *)
(* is a function of the next words of the sequence and takes exactly these.  *)
EXTENDS MT, TraceBase
VARIABLES l, g, pr              \* the generators, and the probabilities set on them
E == Tr[l]
SeedOf(e) == IF e.sd = <<>> THEN Default ELSE e.sd
Put(f, x, v) == [k \in DOMAIN f \cup {x} |-> IF k = x THEN v ELSE f[k]]
\* all Gaussian pairs: the words of the pair, p of its words as signed numbers 2w - (2^32-1)
\* the magnitude as a big number
M32 == <<16383, 16383, 15>>
NWord(u) == NAdd(NMul(OfInt(u[1]), OfInt(65536)), OfInt(u[2]))
Diff(u) == ZAdd(ZMul(<<1, <<2>>>>, <<IF u = <<0,0>> THEN 0 ELSE 1, NWord(u)>>), <<-1, M32>>)
InDiscExact(u, v) == LET x == Diff(u)[2] y == Diff(v)[2] IN NCmp(NAdd(NMul(x, x), NMul(y, y)), NMul(M32, M32)) < 0
\* the same magnitude |2w - (2^32-1)| as a word: both halves of the complement or of the word, doubled and increased
Add1(u) == IF u[2] = 65535 THEN <<u[1]+1, 0>> ELSE <<u[1], u[2]+1>>
Mag(u) == LET c == IF u[1] >= 32768 THEN u ELSE <<65535 - u[1], 65535 - u[2]>> IN Add1(Shl(<<c[1] % 32768, c[2]>>, 1))
\* in the unit disc: decided by the leading bits, and exactly near its border
InDisc(u, v) == \E a \in {Mag(u)[1] \div 2}, b \in {Mag(v)[1] \div 2} :
    IF a >= 32760 \/ b >= 32760 THEN InDiscExact(u, v)
    ELSE IF (a+1)*(a+1) + (b+1)*(b+1) <= 1073741824 THEN TRUE ELSE IF a*a + b*b > 1073741824 THEN FALSE ELSE InDiscExact(u, v)
Neg(u) == u[1] < 32768
\* the leading 15 bits: largest s such that both magnitudes divided by 2^s are below 2^15, at most 17
RECURSIVE BitLen(_)
BitLen(a) == IF a = 0 THEN 0 ELSE 1 + BitLen(a \div 2)
WBits(u) == IF u[1] > 0 THEN 16 + BitLen(u[1]) ELSE BitLen(u[2])
Top(u, s) == IF s = 0 THEN u[2] ELSE IF s = 16 THEN u[1] ELSE IF s > 16 THEN u[1] \div 2^(s-16) ELSE Shr(u, s)[2]
F20 == 1048576
Mul20(a, b) == LET x == Abs(a) y == Abs(b) IN Sgn(a) * Sgn(b) * (((x * (y \div 1024)) + ((x * (y % 1024)) \div 1024)) \div 1024)
Ln2 == 726817
Div20(a, q) == LET r1 == (a * 512) % q r2 == (r1 * 512) % q IN ((a * 512) \div q) * 2048 + ((r1 * 512) \div q) * 4 + ((r2 * 4) \div q)     \* a <= q < 2^22
\* ln of v = m 2^e, 1 <= m < 2, times 2^20
LnInt(v) == LET b == BitLen(v) - 1
                m == IF b <= 20 THEN v * 2^(20-b) ELSE v \div 2^(b-20)                    \* times 2^20
                z == LET a == m - F20 q == m + F20 IN Div20(a, q)       \* (m-1)/(m+1), below 1/3
                z2 == Mul20(z, z)
            IN 2 * Mul20(z, F20 + Mul20(z2, F20 \div 3 + Mul20(z2, F20 \div 5 + Mul20(z2, F20 \div 7 + Mul20(z2, F20 \div 9 + z2 \div 11))))) + b * Ln2
\* y (times 2^20) is the Gaussian of component u of the pair u, v
Gauss(y, u, v) == /\ Sane(y) /\ Abs(y) < 20 * F20 /\ (y # 0 => (y < 0) = Neg(u))
    /\ \E a \in {Mag(u)}, b \in {Mag(v)} : \E s \in {Max2(0, Max2(WBits(a), WBits(b)) - 15)} :
       \E A \in {Top(a, s)}, B \in {Top(b, s)} : \E W \in {A*A + B*B} :
       \E r2 \in {Max2(0, -2 * (LnInt(W) + (2*s - 64) * Ln2))} :                           \* -2 ln w, times 2^20
       \E h \in {(Abs(y) + 256) \div 512} : \E q \in {IF W < 1048576 THEN Div20(A*A, W) ELSE Div20((A*A) \div 1024, W \div 1024)} :
       Near((h*h) \div 256, Mul20(q, r2 \div 64), 40 + h \div 100)
\* draw pairs until one is in the disc
RECURSIVE Pair(_)
Pair(s) == LET d == Draw(s, 2) IN IF InDisc(d.w[1], d.w[2]) THEN d ELSE Pair(d.g)
\* n Gaussians from k on; both: the second member of a pair is used for the next one
\* the state after the Gaussians v from k on (no state when v are not these)
RECURSIVE Gaussians(_,_,_,_)
Gaussians(s, v, k, both) == IF k > Len(v) THEN {s}
    ELSE UNION {IF Gauss(v[k], d.w[1], d.w[2]) /\ (both /\ k < Len(v) => Gauss(v[k+1], d.w[2], d.w[1]))
                THEN Gaussians(d.g, v, IF both THEN k + 2 ELSE k + 1, both) ELSE {} : d \in {Pair(s)}}
\* p times 2^20 as a bound for words: p 2^32
WordOf(p) == <<p \div 16, (p % 16) * 4096>>
\* the index of a discrete distribution: the first position of the order ord whose cumulative probability exceeds the uniform (w + 1/2) / 2^32
Cums(p, ord) == Tail(FoldLeft(LAMBDA a, k : Append(a, a[Len(a)] + p[k]), <<0>>, ord))
PosIn(cs, w) == LET above(k) == cs[k] >= F20 \/ WLess(w, WordOf(cs[k])) IN       \* cs is not decreasing
                IF ~above(Len(cs)) THEN 0 ELSE CHOOSE k \in 1..Len(cs) : above(k) /\ (k = 1 \/ ~above(k-1))
PosOf(p, ord, w) == PosIn(Cums(p, ord), w)
Sorted(p) == SortSeq([k \in 1..Len(p) |-> k], LAMBDA a, b : p[a] < p[b])
DiscreteOK(p, ord, cs, w, v, ties) == LET k == PosIn(cs, w) IN
    IF k = 0 THEN v = 0 ELSE /\ v >= 0 /\ v < Len(p) /\ (IF ties THEN p[v+1] = p[ord[k]] ELSE v + 1 = ord[k])
Shape(e, r, c) == e.rows = r /\ e.cols = c
OK == E.out = "ok"
Keep == g' = g /\ pr' = pr
Step ==
    \/ E.op = "begin" /\ OK /\ g' = <<>> /\ pr' = <<>>
    \/ E.op = "new" /\ OK /\ g' = Put(g, E.x, Seeded(SeedOf(E))) /\ pr' = Put(pr, E.x, <<>>)
    \/ E.op \in {"copy", "assign"} /\ OK /\ g' = Put(g, E.x, g[E.y]) /\ pr' = Put(pr, E.x, pr[E.y])
    \/ E.op = "seed" /\ OK /\ g' = [g EXCEPT ![E.x] = Seeded(E.sd)] /\ pr' = [pr EXCEPT ![E.x] = <<>>]
    \/ E.op = "words" /\ OK /\ pr' = pr /\ \E d \in {Draw(g[E.x], E.n)} : E.w = d.w /\ Shape(E, E.n, 1) /\ g' = [g EXCEPT ![E.x] = d.g]
    \/ E.op = "skip" /\ OK /\ pr' = pr /\ g' = [g EXCEPT ![E.x] = Skip(@, E.n)]
    \/ E.op = "mask" /\ OK /\ pr' = pr /\ \E d \in {Draw(g[E.x], E.n)} :
         /\ Len(E.w) = E.n /\ Shape(E, E.n, 1) /\ \A k \in 1..E.n : E.w[k] = WAnd(d.w[k], E.mask)
         /\ g' = [g EXCEPT ![E.x] = d.g]
    \/ E.op = "rand" /\ OK /\ pr' = pr /\ \E d \in {Draw(g[E.x], E.n)} :
         /\ E.w = d.w /\ (IF "c" \in DOMAIN E THEN Shape(E, E.r, E.c) ELSE Shape(E, E.n, 1))
         /\ g' = [g EXCEPT ![E.x] = d.g]
    \/ E.op = "bits" /\ OK /\ pr' = pr /\ \E d \in {Draw(g[E.x], E.n)} :
         /\ Len(E.v) = E.n /\ Shape(E, E.n, 1) /\ \A k \in 1..E.n : E.v[k] = d.w[k][2] % 2
         /\ g' = [g EXCEPT ![E.x] = d.g]
    \/ E.op = "bern" /\ OK /\ pr' = pr /\ \E d \in {Draw(g[E.x], E.n)} :
         /\ Len(E.v) = E.n /\ \A k \in 1..E.n : E.v[k] = (IF E.p >= F20 \/ WLess(d.w[k], WordOf(E.p)) THEN 1 ELSE 0)
         /\ g' = [g EXCEPT ![E.x] = d.g]
    \/ E.op = "randint" /\ OK /\ pr' = pr /\ \E d \in {Draw(g[E.x], E.n)} :
         /\ Len(E.v) = E.n /\ \A k \in 1..E.n : E.v[k] >= 1 /\ E.v[k] <= E.max
         /\ g' = [g EXCEPT ![E.x] = d.g]
    \/ E.op = "setp" /\ OK /\ g' = g /\ pr' = [pr EXCEPT ![E.x] = E.p.d]
    \/ E.op = "nonu" /\ OK /\ pr' = pr /\ \E d \in {Draw(g[E.x], E.n)} : \E p \in {IF E.m = "set" THEN pr[E.x] ELSE E.p.d} :
         \E ord \in {IF E.m = "vec" THEN [k \in 1..Len(p) |-> k] ELSE Sorted(p)} : \E cs \in {Cums(p, ord)} :
         /\ Len(E.v) = E.n /\ (E.m = "vec" => Shape(E, E.n, 1))
         /\ \A k \in 1..E.n : DiscreteOK(p, ord, cs, d.w[k], E.v[k], E.m # "vec")
         /\ g' = [g EXCEPT ![E.x] = d.g]
    \/ E.op = "randn" /\ OK /\ pr' = pr /\ Len(E.v) = E.n /\ (E.vec = 1 => Shape(E, E.n, 1)) /\ \E r \in Gaussians(g[E.x], E.v, 1, E.vec = 1) :
         g' = [g EXCEPT ![E.x] = r]
Init == l = 1 /\ g = <<>> /\ pr = <<>>
Next == l <= Len(Tr) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, g, pr>>
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
