----------------------------- MODULE MCFourier -----------------------------
(* The radix-2 algorithm (bit reversal, then stages of butterflies) as a     *)
(* transition system over the integers modulo 257, where all roots of unity  *)
(* exist exactly: for every input it ends with the Fourier sums.  By         *)
(* linearity the unit vectors decide the larger sizes.  The identities of    *)
(* the fixed-point cosine and sine are checked as well.                      *)
EXTENDS Fourier, Json
CONSTANTS Emit
VARIABLES x, y, stage
P == 257
RECURSIVE PowP(_,_)
PowP(b, e) == IF e = 0 THEN 1 ELSE (b * PowP(b, e-1)) % P
Root(n) == PowP(3, 256 \div n)          \* 3 generates the multiplicative group
Unit(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
Inputs == [1..2 -> {0,1,3}] \cup [1..4 -> {0,1,3}] \cup UNION {{Unit(n, k) : k \in 1..n} : n \in {8, 16, 32}}
Log(n) == CHOOSE b \in 0..10 : 2^b = n
RECURSIVE Rev(_,_)
Rev(i, b) == IF b = 0 THEN 0 ELSE (i % 2) * 2^(b-1) + Rev(i \div 2, b-1)
Init == x \in Inputs /\ y = <<>> /\ stage = 0
BitRev == /\ stage = 0 /\ stage' = 1 /\ x' = x
           /\ y' = [i \in 1..Len(x) |-> x[Rev(i-1, Log(Len(x))) + 1]]
           /\ (Emit => PrintT(ToJson(x)))
Butterfly == /\ stage >= 1 /\ stage <= Log(Len(x))
             /\ LET m == 2^stage h == m \div 2 w == Root(m) IN
                y' = [i \in 1..Len(x) |-> LET j == (i-1) % m IN
                        IF j < h THEN (y[i] + PowP(w, j) * y[i+h]) % P
                        ELSE (y[i-h] + (P - PowP(w, j-h)) * y[i]) % P]
             /\ stage' = stage + 1 /\ x' = x
Next == BitRev \/ Butterfly
Spec == Init /\ [][Next]_<<x, y, stage>>
RootOK == \A b \in 1..5 : PowP(Root(2^b), 2^(b-1)) = P - 1
Done == (stage = Log(Len(x)) + 1 /\ stage > 0) => \A k \in 1..Len(x) :
           y[k] = FoldLeft(LAMBDA acc, j : (acc + x[j] * PowP(Root(Len(x)), ((j-1)*(k-1)) % Len(x))) % P, 0, [j \in 1..Len(x) |-> j])
TrigOK == (stage = 0 /\ x[1] = 1 /\ SumAbs(x) = 1) => LET n == IF Len(x) = 2 THEN 13 ELSE IF Len(x) = 4 THEN 24 ELSE 2 * Len(x) IN
          \A k \in 0..(n-1) : /\ Abs(Mul20(CosT[n][k], CosT[n][k]) + Mul20(SinT[n][k], SinT[n][k]) - F20) <= 12
                              /\ \A j \in 0..(n-1) : Abs(CosT[n][(j+k) % n] - (Mul20(CosT[n][j], CosT[n][k]) - Mul20(SinT[n][j], SinT[n][k]))) <= 16
          /\ CosT[n][0] = F20 /\ SinT[n][0] = 0 /\ SinT[n][1] > 0
=============================================================================
