------------------------------- MODULE MCAlg -------------------------------
(* Linear algebra on all pairs of small matrices: the identities that tie    *)
(* product, transpose, determinant, concatenation, flips and the Kronecker   *)
(* product together.  With Emit, the operands are printed; all operations    *)
(* that are defined on them are replayed on the implementation.              *)
EXTENDS MatrixStore, Json
CONSTANTS MaxR, MaxC, Raw, RawB, DetN, Emit
VARIABLES a, b
\* the elements (a configuration file holds no negative numbers)
Vals == {v - 1 : v \in Raw}
ValsB == {v - 1 : v \in RawB}
Mats(R, C, V) == UNION {{[r |-> r, c |-> c, d |-> d] : d \in [1..(r*c) -> V]} : r \in R, c \in C}
Init == /\ a \in Mats(1..MaxR, 1..MaxC, Vals) \cup Mats({DetN}, {DetN}, ValsB)
        /\ b = EmptyM
Next == /\ b = EmptyM
        /\ IF a.r = DetN THEN b' = a
           ELSE b' \in {n \in Mats(1..MaxR, 1..MaxC, ValsB) : n.r = a.c \/ n.r = a.r \/ n.c = a.c}
        /\ a' = a
        /\ (Emit => PrintT(ToJson([a |-> a, b |-> b'])))
Spec == Init /\ [][Next]_<<a, b>>
I(n) == Eye("i", n)
P(m, n) == MatMul("i", m, n)
Laws == b # EmptyM =>
        /\ P(a, I(a.c)) = a /\ P(I(a.r), a) = a
        /\ Transpose(Transpose(a)) = a
        /\ a.c = b.r => /\ Transpose(P(a, b)) = P(Transpose(b), Transpose(a))
                        /\ P(P(a, b), Transpose(b)) = P(a, P(b, Transpose(b)))
                        /\ IsSquare(a) /\ IsSquare(b) => Det(P(a, b)) = Det(a) * Det(b)
        /\ IsSquare(a) => /\ Det(Transpose(a)) = Det(a)
                          /\ Det(I(a.r)) = 1
                          /\ a.r > 1 => Det(SwapRows(a, 0, 1)) = -Det(a)
        /\ a.c = b.c => VCat(a, b) = Transpose(HCat(Transpose(a), Transpose(b)))
        /\ (a.r = b.r /\ a.r > 1) => Left(HCat(a, b), a.c) = a /\ Right(HCat(a, b), b.c) = b
        /\ FlipLR(FlipLR(a)) = a /\ FlipUD(FlipUD(a)) = a
        /\ (a.r > 1 /\ a.c > 1) => FlipUD(a) = Transpose(FlipLR(Transpose(a)))
        /\ Transpose(Kron("i", a, b)) = Kron("i", Transpose(a), Transpose(b))
        /\ P(Kron("i", a, I(2)), Kron("i", I(a.c), I(2))) = Kron("i", a, I(2))
=============================================================================
