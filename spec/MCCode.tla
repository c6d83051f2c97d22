------------------------------- MODULE MCCode -------------------------------
(* The encoder as a state machine: for all small codes and messages it emits *)
(* the convolution of the message with the generators, and it is linear.     *)
(* The sums over the trellis equal the sums over all paths, and the bits of  *)
(* noise-free words have the larger likelihood.                              *)
EXTENDS CCode, Trellis, Json
CONSTANTS MaxM, MaxLen
VARIABLES part, m, gen, x
RECURSIVE ToOct(_)
ToOct(v) == IF v = 0 THEN 0 ELSE (v % 8) + 10 * ToOct(v \div 8)
Gens(k) == {ToOct(v) : v \in 0..(2^(k+1) - 1)}
Msgs == UNION {[1..n -> {0,1}] : n \in 1..MaxLen}
\* small codes for the decoder: <<m, generators, stages>>
DecCodes == {<<1, <<a, b>>, 3>> : a, b \in 0..3} \cup {<<2, <<a>>, 5>> : a \in 1..7} \cup {<<2, <<5, 7>>, 3>>, <<2, <<7, 5>>, 3>>, <<2, <<6, 1>>, 3>>}
Init == /\ x = <<>>
        /\ \/ part = "enc" /\ m \in 1..MaxM /\ gen \in (IF m <= 2 THEN UNION {[1..n -> Gens(m)] : n \in 1..2} ELSE {<<a, b>> : a \in Gens(m), b \in {0, 1, 13, 15, 17}})
           \/ part = "dec" /\ \E c \in DecCodes : m = c[1] /\ gen = c[2]
Stages == IF m = 2 /\ Len(gen) = 1 THEN 5 ELSE 3
Next == /\ x = <<>> /\ UNCHANGED <<part, m, gen>>
        /\ IF part = "enc" THEN /\ x' \in Msgs
                                /\ (x' = <<1>> => PrintT(ToJson([op |-> "enc", m |-> m, gen |-> gen])))
           ELSE /\ x' \in [1..(Stages * Len(gen)) -> {-1, 0, 1}]
                /\ PrintT(ToJson([op |-> "dec", m |-> m, gen |-> gen, y |-> x']))
Spec == Init /\ [][Next]_<<part, m, gen, x>>
XorSeq(u, v) == [k \in 1..Len(u) |-> (u[k] + v[k]) % 2]
EncLaw == LET c == Encode(gen, m, x) IN
    /\ c = Definition(gen, m, x)
    /\ \A v \in {[k \in 1..Len(x) |-> 1], [k \in 1..Len(x) |-> k % 2], [k \in 1..Len(x) |-> IF k = 1 THEN 1 ELSE 0]} : Encode(gen, m, XorSeq(x, v)) = XorSeq(c, Encode(gen, m, v))
    /\ \A k \in 1..Len(x) : Encode(gen, m, SubSeq(x, 1, k)) = SubSeq(c, 1, k * Len(gen))
Nx(s, b) == NextState(m, s, b)
E(k, s, b) == LET o == Bits(gen, m, s, b) n == Len(gen) IN n + SumTo(LAMBDA j : x[(k-1)*n + j] * (2*o[j] - 1), 1, n)
DecLaw == \E F \in {Forward(Stages, 2^m, Nx, E)}, B \in {Backward(Stages, 2^m, Nx, E)} :
    \A k \in 1..Stages : \E one \in {Total(F, B, 2^m, Nx, E, k, 1)}, zero \in {Total(F, B, 2^m, Nx, E, k, 0)} :
       /\ one = Enumerated(Stages, Nx, E, k, 1) /\ zero = Enumerated(Stages, Nx, E, k, 0)
       \* a noise-free terminated word: its bits are at least as likely
       /\ \A u \in [1..Stages -> {0,1}] : (PathEnd(Nx, 0, u) = 0 /\ x = [p \in 1..Len(x) |-> 2 * Encode(gen, m, u)[p] - 1]) =>
              LET c == NCmp(one, zero) IN IF u[k] = 1 THEN c >= 0 ELSE c <= 0
Laws == x # <<>> => IF part = "enc" THEN EncLaw ELSE DecLaw
\* the register forgets its oldest bit only: m+1 inputs determine the state
StateLaw == (part = "enc" /\ x # <<>> /\ Len(x) >= m) => PathEnd(Nx, 0, x) = SumTo(LAMBDA i : x[Len(x)-i] * 2^(m-1-i), 0, m-1)
=============================================================================
