------------------------------ MODULE MCScalar ------------------------------
(* The arithmetic that decides the scalar helpers, checked against the       *)
(* arithmetic of TLC within 32 bits, and the tables of the normal            *)
(* distribution against its differential equation.                           *)
EXTENDS Big, Phi
VARIABLES a, b
S == {0, 1, 2, 9, 999, 9999, 16383, 16384, 16385, 20000, 32767, 40000, 46340}
Init == a \in S /\ b = -1
Next == b = -1 /\ b' \in S \cup {s + 7 : s \in S} /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>
SInt(n) == {ZInt(n), ZInt(-n)}
BigLaws == b >= 0 =>
  /\ NAdd(OfInt(a), OfInt(b)) = OfInt(a + b)
  /\ a >= b => NSub(OfInt(a), OfInt(b)) = OfInt(a - b)
  /\ NCmp(OfInt(a), OfInt(b)) = Sgn(a - b)
  /\ a * (b \div 2) < 2000000000 => NMul(OfInt(a), OfInt(b \div 2)) = OfInt(a * (b \div 2))
  /\ ZAdd(ZInt(a), ZInt(-b)) = ZInt(a - b) /\ ZAdd(ZInt(-a), ZInt(-b)) = ZInt(-a - b) /\ ZMul(ZInt(-a), ZInt(b \div 2)) = ZNeg(ZMul(ZInt(a), ZInt(b \div 2)))
  /\ NMul(NAdd(OfInt(a), OfInt(b)), NAdd(OfInt(a), OfInt(b)))
       = NAdd(NAdd(NMul(OfInt(a), OfInt(a)), NMul(OfInt(b), OfInt(b))), NMul(<<2>>, NMul(OfInt(a), OfInt(b))))
  /\ NPow(<<2>>, 64) = <<0, 0, 0, 0, 256>> /\ NPow(<<10>>, 19) = <<0, 10144, 12360, 12744, 138>>
\* the density satisfies f' = -x f and the distribution function F' = f (Simpson's rule over two steps of 1/16),
\* and the series about neighbouring grid points agree half-way between them
PhiLaws ==
  /\ Tab[1] = One \div 2 /\ Den[1] = 398942280
  /\ \A k \in 0..(LastK-2) :
       LET d0 == Den[k+1] d1 == Den[k+2] d2 == Den[k+3] IN
       /\ Abs((Tab[k+3] - Tab[k+1]) - (d0 \div 48 + d1 \div 12 + d2 \div 48)) <= 20
       /\ Abs((d0 - d2) - (k * (d0 \div 768) + (k+1) * (d1 \div 192) + (k+2) * (d2 \div 768))) <= 4 * k + 150
  /\ \A k \in 0..(LastK-1) : Abs((CdfPos(4096*k + 2049) - CdfPos(4096*k + 2047)) - ((Den[k+1] + Den[k+2]) \div 65536)) <= 40
  /\ \A n \in {65536 * j : j \in 0..6} : Cdf(n) + Cdf(-n) = One
=============================================================================
