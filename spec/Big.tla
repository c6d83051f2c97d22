-------------------------------- MODULE Big --------------------------------
(* Integers beyond the range of TLC: naturals are sequences of digits in     *)
(* base 2^14, least significant first and without leading zeros; integers   *)
(* are pairs <<sign, natural>> with sign -1, 0 or 1.                         *)
EXTENDS Num
Base == 16384

RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s)-1)) ELSE s
Dig(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
\* propagate carries through a sequence of non-negative digits
RECURSIVE Carry(_,_,_)
Carry(s, k, c) == IF k > Len(s) THEN (IF c = 0 THEN s ELSE Carry(Append(s, c % Base), k+1, c \div Base))
                  ELSE LET v == s[k] + c IN Carry([s EXCEPT ![k] = v % Base], k+1, v \div Base)
RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o OfInt(n \div Base)
NAdd(a, b) == Trim(Carry([k \in 1..Max2(Len(a), Len(b)) |-> Dig(a,k) + Dig(b,k)], 1, 0))
RECURSIVE Borrow(_,_,_)
Borrow(s, k, c) == IF k > Len(s) THEN s ELSE LET v == s[k] - c IN Borrow([s EXCEPT ![k] = v % Base], k+1, IF v < 0 THEN 1 ELSE 0)
NSub(a, b) == Trim(Borrow([k \in 1..Len(a) |-> a[k] - Dig(b,k)], 1, 0))     \* a >= b
RECURSIVE NCmpFrom(_,_,_)
NCmpFrom(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] # b[k] THEN Sgn(a[k] - b[k]) ELSE NCmpFrom(a, b, k-1)
NCmp(a, b) == IF Len(a) # Len(b) THEN Sgn(Len(a) - Len(b)) ELSE NCmpFrom(a, b, Len(a))
NMul1(a, d, z) == [k \in 1..z |-> 0] \o [k \in 1..Len(a) |-> a[k] * d]
RECURSIVE NMulFrom(_,_,_)
NMulFrom(a, b, k) == IF k > Len(b) THEN <<>> ELSE NAdd(Trim(Carry(NMul1(a, b[k], k-1), 1, 0)), NMulFrom(a, b, k+1))
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(NMulFrom(a, b, 1))
RECURSIVE NPow(_,_)
NPow(a, n) == IF n = 0 THEN <<1>> ELSE LET h == NPow(a, n \div 2) h2 == NMul(h, h) IN IF n % 2 = 0 THEN h2 ELSE NMul(h2, a)

ZInt(n) == <<Sgn(n), OfInt(Abs(n))>>
ZNeg(x) == <<-x[1], x[2]>>
ZMul(x, y) == <<x[1] * y[1], NMul(x[2], y[2])>>
ZAdd(x, y) == IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
              ELSE IF x[1] = y[1] THEN <<x[1], NAdd(x[2], y[2])>>
              ELSE LET c == NCmp(x[2], y[2]) IN
                   IF c = 0 THEN <<0, <<>>>> ELSE IF c > 0 THEN <<x[1], NSub(x[2], y[2])>> ELSE <<y[1], NSub(y[2], x[2])>>
ZPow(x, n) == IF n = 0 THEN <<1, <<1>>>> ELSE IF x[1] = 0 THEN x ELSE <<IF x[1] < 0 /\ n % 2 = 1 THEN -1 ELSE 1, NPow(x[2], n)>>
=============================================================================
