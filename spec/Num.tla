-------------------------------- MODULE Num --------------------------------
(* Integer helpers.  Real numbers of the implementation appear in the        *)
(* specification as integers, multiplied by a scale that each event states.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, TLC

Abs(a)    == IF a < 0 THEN -a ELSE a
Max2(a,b) == IF a > b THEN a ELSE b
Min2(a,b) == IF a < b THEN a ELSE b
Sgn(a)    == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

\* division and remainder of C++: truncated towards zero
TDiv(a,b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
TRem(a,b) == a - b * TDiv(a,b)

\* not an integer at the scale of the event / not a finite number / unspecified
NotInt == -2000000001
NotNum == -2000000002
ANY    == -2000000000

Sane(a)       == a > -1000000000 /\ a < 1000000000
Near(a,b,tol) == Sane(a) /\ Sane(b) /\ a - b <= tol /\ b - a <= tol

SumSeq(s)  == FoldLeft(LAMBDA acc, v : acc + v, 0, s)
Range0(n)  == 0 .. (n - 1)
Pow2(n)    == 2^n

RECURSIVE Gcd(_,_)
Gcd(a,b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))

RECURSIVE Parity(_)
Parity(a) == IF a = 0 THEN 0 ELSE ((a % 2) + Parity(a \div 2)) % 2

\* the sum over lo..hi of F
RECURSIVE SumTo(_,_,_)
SumTo(F(_), lo, hi) == IF lo > hi THEN 0 ELSE F(lo) + SumTo(F, lo + 1, hi)

-----------------------------------------------------------------------------
(* Element types: "i" int, "b" int8_t, "u" uint8_t, "f" float, "d" double,   *)
(* and "ci", "cb", "cu", "cf", "cd" their complex forms, whose values are    *)
(* pairs.                                                                    *)
IsCx(t)   == t \in {"ci", "cf", "cd", "cb", "cu"}
Wrap8(t,a) == CASE t \in {"b", "cb"} -> ((a + 128) % 256) - 128
               [] t \in {"u", "cu"} -> a % 256
               [] OTHER   -> a
Wrap(t,a) == CASE t = "b" -> ((a + 128) % 256) - 128
               [] t = "u" -> a % 256
               [] OTHER   -> a
Zero(t)   == IF IsCx(t) THEN <<0,0>> ELSE 0
FromInt(t,a) == IF IsCx(t) THEN <<a,0>> ELSE Wrap(t,a)

EAdd(t,a,b) == IF IsCx(t) THEN <<a[1]+b[1], a[2]+b[2]>> ELSE Wrap(t, a+b)
ESub(t,a,b) == IF IsCx(t) THEN <<a[1]-b[1], a[2]-b[2]>> ELSE Wrap(t, a-b)
EMul(t,a,b) == IF IsCx(t) THEN <<a[1]*b[1]-a[2]*b[2], a[1]*b[2]+a[2]*b[1]>> ELSE Wrap(t, a*b)
EConj(a)    == <<a[1], -a[2]>>
\* integer division in the element type
EDivI(t,a,b) == Wrap(t, TDiv(a,b))
=============================================================================
