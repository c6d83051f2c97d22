------------------------------ MODULE Channel ------------------------------
(* Intersymbol interference: taps h (h[1] weighs the current symbol), an     *)
(* alphabet a, and the last Len(h)-1 symbols as the state, a number in base  *)
(* Len(a) whose least significant digit is the most recent symbol.           *)
EXTENDS Num
Mem(h) == Len(h) - 1
NStates(h, a) == Len(a)^Mem(h)
NextSt(h, a, s, b) == (s * Len(a) + b) % NStates(h, a)
Digit(a, s, k) == (s \div Len(a)^k) % Len(a)
OutputOf(h, a, s, b) == SumTo(LAMBDA k : h[k+1] * a[Digit(a, s * Len(a) + b, k) + 1], 0, Mem(h))
\* the symbols of a state, oldest first
StateDigits(h, a, s) == [k \in 1..Mem(h) |-> Digit(a, s, Mem(h) - k)]
StateSyms(h, a, s) == [k \in 1..Mem(h) |-> a[Digit(a, s, Mem(h) - k) + 1]]
Convolved(x, h) == [n \in 1..(Len(x) + Len(h) - 1) |-> SumTo(LAMBDA k : IF n-k+1 >= 1 /\ n-k+1 <= Len(x) THEN h[k] * x[n-k+1] ELSE 0, 1, Len(h))]
\* the outputs of a signal that starts and ends in the given state
EncodeISI(h, a, x, s) == SubSeq(Convolved(StateSyms(h, a, s) \o x \o StateSyms(h, a, s), h), Len(h), Len(x) + 2 * Mem(h))
\* the outputs along a path of digits from a state, and its end
RECURSIVE Outputs(_,_,_,_)
Outputs(h, a, s, u) == IF u = <<>> THEN <<>> ELSE <<OutputOf(h, a, s, Head(u))>> \o Outputs(h, a, NextSt(h, a, s, Head(u)), Tail(u))
RECURSIVE EndOf(_,_,_,_)
EndOf(h, a, s, u) == IF u = <<>> THEN s ELSE EndOf(h, a, NextSt(h, a, s, Head(u)), Tail(u))
Dist2(y, z) == SumTo(LAMBDA k : (y[k] - z[k]) * (y[k] - z[k]), 1, Len(y))
\* squared distances along the trellis: the least one for every state (-1: not reachable)
Inf == -1
Into(h, a, mt, s, y) ==
    LET P == Len(a) cand == {<<p, s % P>> : p \in {q \in 0..(NStates(h,a) - 1) : mt[q+1] # Inf /\ NextSt(h, a, q, s % P) = s}} IN
    {<<mt[c[1]+1] + (y - OutputOf(h, a, c[1], c[2])) * (y - OutputOf(h, a, c[1], c[2])), c[1]>> : c \in cand}
Least(S) == IF S = {} THEN Inf ELSE CHOOSE v \in {c[1] : c \in S} : \A c \in S : c[1] >= v
Start0(h, a, s0) == [s \in 1..NStates(h, a) |-> IF s = s0 + 1 THEN 0 ELSE Inf]
Metrics(h, a, s0, y) == FoldLeft(LAMBDA mt, k : TLCEval([s \in 1..NStates(h, a) |-> Least(Into(h, a, mt, s-1, y[k]))]), Start0(h, a, s0), [k \in 1..Len(y) |-> k])
\* r is a maximum-likelihood sequence for y
IsML(h, a, s0, y, r) == /\ Len(r) = Len(y) - Mem(h) /\ \A k \in 1..Len(r) : r[k] \in {a[j] : j \in 1..Len(a)}
                        /\ \E z \in {EncodeISI(h, a, r, s0)} : \E mt \in {Metrics(h, a, s0, y)} : Dist2(y, z) = mt[s0 + 1]
=============================================================================
