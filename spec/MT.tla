--------------------------------- MODULE MT ---------------------------------
(* The Mersenne Twister MT19937 as a state machine.  A word of 32 bits is a  *)
(* pair <<high half, low half>>; the state is [h, l, i]: the halves of the   *)
(* 624 words and the number of words already taken from them.                *)
EXTENDS Big
NN == 624
MM == 397
AndH(a, b) == a & b
XorH(a, b) == a + b - 2 * (a & b)
WXor(u, v) == <<XorH(u[1], v[1]), XorH(u[2], v[2])>>
WAnd(u, v) == <<u[1] & v[1], u[2] & v[2]>>
\* shifts by 0 < s < 16
Shr(u, s) == <<u[1] \div 2^s, (u[2] \div 2^s) + (u[1] % 2^s) * 2^(16-s)>>
Shl(u, s) == <<((u[1] % 2^(16-s)) * 2^s) + (u[2] \div 2^(16-s)), (u[2] % 2^(16-s)) * 2^s>>
\* u * 1812433253 + k mod 2^32, where 1812433253 = 27655 * 65536 + 35173
MulC(u, k) == LET a == u[2] \div 256 b == u[2] % 256
                  t == b * 35173 + ((a * 35173) % 256) * 256 + k
                  x == (((((u[1] \div 256) * 35173) % 256) * 256) + (u[1] % 256) * 35173) % 65536
              IN <<((t \div 65536) + ((a * 35173) \div 256) + ((u[2] * 27655) % 65536) + x) % 65536, t % 65536>>
NextInit(u, k) == MulC(<<u[1], XorH(u[2], u[1] \div 16384)>>, k)
Seeded(seed) == LET s == FoldLeft(LAMBDA acc, k : Append(acc, NextInit(acc[Len(acc)], k)), <<seed>>, [k \in 1..(NN-1) |-> k])
                IN [h |-> TLCEval([k \in 1..NN |-> s[k][1]]), l |-> TLCEval([k \in 1..NN |-> s[k][2]]), i |-> NN]
Default == <<0, 5489>>
\* the new word from the words at k, k+1 and k+397
Mix(uh, vh, vl, wh, wl) == LET y == <<(uh \div 32768) * 32768 + (vh % 32768), vl>> z == WXor(<<wh, wl>>, <<y[1] \div 2, (y[2] \div 2) + (y[1] % 2) * 32768>>)
                           IN IF vl % 2 = 1 THEN WXor(z, <<39176, 45279>>) ELSE z          \* 0x9908, 0xb0df
Stage(h, l, lo, hi, off, ph, pl) == TLCEval([k \in 1..(hi-lo+1) |-> Mix(h[lo+k-1], h[lo+k], l[lo+k], ph[off+k], pl[off+k])])
Twist(g) == LET h == g.h l == g.l
                a == Stage(h, l, 1, 227, 397, h, l)
                ah == TLCEval([k \in 1..227 |-> a[k][1]])  al == TLCEval([k \in 1..227 |-> a[k][2]])
                b == Stage(h, l, 228, 454, 0, ah, al)
                bh == TLCEval([k \in 1..227 |-> b[k][1]])  bl == TLCEval([k \in 1..227 |-> b[k][2]])
                c == Stage(h, l, 455, 623, 0, bh, bl)
                z == Mix(h[624], ah[1], al[1], bh[397-227], bl[397-227])
                nh == ah \o bh \o [k \in 1..169 |-> c[k][1]] \o <<z[1]>>
                nl == al \o bl \o [k \in 1..169 |-> c[k][2]] \o <<z[2]>>
            IN [h |-> TLCEval(nh), l |-> TLCEval(nl), i |-> 0]
Temper(u) == LET a == WXor(u, Shr(u, 11))
                 b == WXor(a, WAnd(Shl(a, 7), <<40236, 22144>>))               \* 0x9d2c, 0x5680
                 c == WXor(b, WAnd(Shl(b, 15), <<61382, 0>>))                  \* 0xefc6
             IN WXor(c, <<0, c[1] \div 4>>)
\* n words and the state after them
RECURSIVE Draw(_,_)
Draw(g0, n) == IF n = 0 THEN [w |-> <<>>, g |-> g0]
               ELSE LET g == IF g0.i = NN THEN Twist(g0) ELSE g0
                        m == Min2(n, NN - g.i)
                        w == TLCEval([k \in 1..m |-> Temper(<<g.h[g.i+k], g.l[g.i+k]>>)])
                        r == Draw([g EXCEPT !.i = @ + m], n - m)
                    IN [w |-> w \o r.w, g |-> r.g]
RECURSIVE Skip(_,_)
Skip(g, n) == IF g.i + n <= NN THEN [g EXCEPT !.i = @ + n] ELSE Skip(Twist(g), n - (NN - g.i))
One(g) == Draw(g, 1)
WLess(u, v) == u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2])
=============================================================================
