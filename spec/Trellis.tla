------------------------------ MODULE Trellis ------------------------------
(* Sums of likelihoods over the paths of a trellis that start and end in     *)
(* state 0.  The edge of stage k = 1..n, state s and bit b leads to Nx(s,b)  *)
(* and has the likelihood 2^E(k,s,b), E >= 0; all sums are exact naturals.   *)
EXTENDS Big
Pow2N(e) == NPow(<<2>>, e)
Scale(x, e) == IF x = <<>> \/ e = 0 THEN x
               ELSE LET r == e % 14 IN [k \in 1..(e \div 14) |-> 0] \o (IF r = 0 THEN x ELSE Carry([k \in 1..Len(x) |-> x[k] * 2^r], 1, 0))
Start(ns) == [s \in 1..ns |-> IF s = 1 THEN <<1>> ELSE <<>>]
\* element k+1 holds the sums over the paths from stage k to the end
Backward(n, ns, Nx(_,_), E(_,_,_)) ==
    FoldLeft(LAMBDA acc, j : <<TLCEval([s \in 1..ns |-> NAdd(Scale(acc[1][Nx(s-1, 0) + 1], E(n+1-j, s-1, 0)), Scale(acc[1][Nx(s-1, 1) + 1], E(n+1-j, s-1, 1)))])>> \o acc,
             <<Start(ns)>>, [j \in 1..n |-> j])
\* element k+1 holds the sums over the paths from the start to stage k
ComingIn(ns, Nx(_,_), f, E(_,_), s) == FoldLeft(LAMBDA acc, i : LET p == (i-1) \div 2 b == (i-1) % 2 IN IF Nx(p, b) = s THEN NAdd(acc, Scale(f[p+1], E(p, b))) ELSE acc,
                                            <<>>, [i \in 1..(2*ns) |-> i])
Forward(n, ns, Nx(_,_), E(_,_,_)) ==
    FoldLeft(LAMBDA acc, k : Append(acc, TLCEval([s \in 1..ns |-> ComingIn(ns, Nx, acc[k], LAMBDA p, b : E(k, p, b), s-1)])), <<Start(ns)>>, [k \in 1..n |-> k])
(* For many stages the sums of a stage are kept to their leading 12 digits,  *)
(* with one common factor: the parts are too small to matter for any ratio,  *)
(* as long as no state falls that far behind another one.                    *)
Window == 12
Keep(f) == LET L == FoldLeft(LAMBDA a, x : Max2(a, Len(x)), 0, f) IN
           IF L <= Window THEN f
           ELSE TLCEval([s \in DOMAIN f |-> IF f[s] = <<>> THEN <<>> ELSE IF Assert(Len(f[s]) > L - Window + 5, "a state fell behind") THEN SubSeq(f[s], L - Window + 1, Len(f[s])) ELSE <<>>])
BackwardLong(n, ns, Nx(_,_), E(_,_,_)) ==
    LET R == FoldLeft(LAMBDA acc, j : Append(acc, Keep([s \in 1..ns |-> NAdd(Scale(acc[j][Nx(s-1, 0) + 1], E(n+1-j, s-1, 0)), Scale(acc[j][Nx(s-1, 1) + 1], E(n+1-j, s-1, 1)))])),
                      <<Start(ns)>>, [j \in 1..n |-> j])
    IN [k \in 1..(n+1) |-> R[n+2-k]]
ForwardLong(n, ns, Nx(_,_), E(_,_,_)) ==
    FoldLeft(LAMBDA acc, k : Append(acc, Keep([s \in 1..ns |-> ComingIn(ns, Nx, acc[k], LAMBDA p, b : E(k, p, b), s-1)])), <<Start(ns)>>, [k \in 1..n |-> k])
\* the likelihood of all paths with bit b in stage k, from the forward and backward sums
Total(F, B, ns, Nx(_,_), E(_,_,_), k, b) ==
    FoldLeft(LAMBDA acc, s : NAdd(acc, IF F[k][s] = <<>> THEN <<>> ELSE NMul(Scale(F[k][s], E(k, s-1, b)), B[k+1][Nx(s-1, b) + 1])), <<>>, [s \in 1..ns |-> s])
\* the same by enumeration of the paths
RECURSIVE PathEnd(_,_,_)
PathEnd(Nx(_,_), s, u) == IF u = <<>> THEN s ELSE PathEnd(Nx, Nx(s, Head(u)), Tail(u))
RECURSIVE PathE(_,_,_,_,_)
PathE(Nx(_,_), E(_,_,_), s, u, k) == IF k > Len(u) THEN 0 ELSE E(k, s, u[k]) + PathE(Nx, E, Nx(s, u[k]), u, k+1)
Enumerated(n, Nx(_,_), E(_,_,_), k, b) ==
    FoldSet(LAMBDA u, acc : NAdd(acc, IF u[k] = b /\ PathEnd(Nx, 0, u) = 0 THEN Pow2N(PathE(Nx, E, 0, u, 1)) ELSE <<>>), <<>>, [1..n -> {0,1}])
\* lr = <<mantissa, exponent>> is the ratio of one and zero, up to a part of 1/tol
IsRatio(lr, one, zero, tol) ==
    IF one = <<>> THEN lr[1] = 0
    ELSE /\ lr[1] > 0 /\ Abs(lr[2]) < 3000
         /\ \E a \in {Scale(NMul(OfInt(lr[1]), zero), Max2(lr[2], 0))}, b \in {Scale(one, Max2(-lr[2], 0))} :
            NCmp(NMul(IF NCmp(a, b) >= 0 THEN NSub(a, b) ELSE NSub(b, a), OfInt(tol)), b) <= 0
=============================================================================
