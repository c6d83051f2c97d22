----------------------------- MODULE MCVariates -----------------------------
(* The rules that turn words into variates: for every small distribution,    *)
(* the cumulative rule gives an index of positive probability for every word *)
(* and the numbers of words (in units of 2^28) match the probabilities; the  *)
(* disc test is symmetric and agrees with its meaning on the axes; the       *)
(* logarithm is additive up to the precision of the fixed point.             *)
EXTENDS TrMT
VARIABLES part, x
Sixteenths == {p \in UNION {[1..n -> 0..16] : n \in 1..4} : FoldLeft(LAMBDA a, b : a + b, 0, p) = 16}
Words == [j \in 0..15 |-> <<j * 4096 + 17, 5>>]
Count(p, ord, k) == Cardinality({j \in 0..15 : PosOf(p, ord, Words[j]) = k})
P20(p) == [k \in 1..Len(p) |-> p[k] * 65536]
DistLaw(p) == \A ord \in {[k \in 1..Len(p) |-> k], Sorted(P20(p))} : \A k \in 1..Len(p) : Count(P20(p), ord, k) = p[ord[k]]
Ws == {<<0,0>>, <<0,1>>, <<65535,65535>>, <<65535,65534>>, <<32768,0>>, <<32767,65535>>, <<9598,3423>>, <<16384,0>>, <<55937,62112>>, <<55938,3424>>, <<40000,7>>}
DiscLaw(u, v) == /\ InDisc(u, v) = InDisc(v, u) /\ InDisc(u, v) = InDiscExact(u, v)
                 /\ InDisc(<<65535-u[1], 65535-u[2]>>, v) = InDisc(u, v)
                 /\ (u = <<0,0>> => ~InDisc(u, v)) /\ (u \in {<<32768,0>>, <<32767,65535>>} /\ v[1] \notin {0, 65535} => InDisc(u, v))
                 /\ Mag(u) = Mag(<<65535-u[1], 65535-u[2]>>) /\ Neg(u) # Neg(<<65535-u[1], 65535-u[2]>>)
                 /\ <<1, NWord(Mag(u))>> = <<1, Diff(u)[2]>>
LnLaw(a, b) == Abs(LnInt(a * b) - LnInt(a) - LnInt(b)) <= 12 /\ (b > a => LnInt(b) > LnInt(a))
MInit == part \in {"dist", "disc", "ln"} /\ x = <<>> /\ l = 1 /\ g = <<>> /\ pr = <<>>
MNext == /\ x = <<>> /\ UNCHANGED <<part, l, g, pr>>
         /\ CASE part = "dist" -> x' \in Sixteenths
              [] part = "disc" -> x' \in Ws \X Ws
              [] part = "ln" -> x' \in {1, 2, 3, 5, 7, 10, 31, 64, 100, 999, 1000, 4095, 12345, 32768} \X {1, 2, 3, 9, 17, 64, 1001, 16384, 40000, 65535}
MSpec == MInit /\ [][MNext]_<<part, x, l, g, pr>>
Laws == x # <<>> => CASE part = "dist" -> DistLaw(x) [] part = "disc" -> DiscLaw(x[1], x[2]) [] part = "ln" -> LnLaw(x[1], x[2])
=============================================================================
