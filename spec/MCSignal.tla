------------------------------ MODULE MCSignal ------------------------------
(* The identities that tie filtering, convolution and the structured         *)
(* matrices together, for all pairs of short sequences; the pairs are        *)
(* printed and go through every operation of the implementation.             *)
EXTENDS Signal, Json
CONSTANTS MaxA, MaxB, Emit
VARIABLES a, b
Vals == {-1, 0, 2}
Seqs(n) == UNION {[1..k -> Vals] : k \in 1..n}
Init == a \in {<<v>> : v \in Vals} /\ b = <<>>
Next == \/ b = <<>> /\ Len(a) < MaxA /\ b' = b /\ \E v \in Vals : a' = Append(a, v)
        \/ b = <<>> /\ a' = a /\ b' \in Seqs(MaxB) /\ (Emit => PrintT(ToJson([a |-> a, b |-> b'])))
Spec == Init /\ [][Next]_<<a, b>>
T == "i"
F(p, q, x, n) == FilterSeq(T, p, q, x, n)
Add(p, q) == [k \in 1..Len(p) |-> p[k] + q[k]]
Zeros(n) == [k \in 1..n |-> 0]
Laws == b # <<>> =>
  LET c == ConvSeq(T, a, b) IN
  /\ c = ConvSeq(T, b, a)
  /\ c = F(a, <<1>>, b, Len(a) - 1)
  /\ c = MatMul(T, ConvMtx(T, ColM(a), Len(b)), ColM(b)).d
  /\ c = MatMul(T, RowM(b), ConvMtx(T, RowM(a), Len(b))).d
  /\ ConvMtx(T, RowM(a), Len(b)) = Transpose(ConvMtx(T, ColM(a), Len(b)))
  /\ ConvMtx(T, ColM(a), Len(b)) = Toeplitz2(a \o Zeros(Len(b)-1), <<a[1]>> \o Zeros(Len(b)-1))
  \* a recursive filter undoes the convolution with its coefficients
  /\ F(<<1>>, <<1>> \o a, F(<<1>> \o a, <<1>>, b, 3), 0) = b \o Zeros(3)
  \* appended zeros only extend the output; linearity
  /\ SubSeq(F(a, <<1>> \o b, b, 2), 1, Len(b)) = F(a, <<1>> \o b, b, 0)
  /\ (Len(a) = Len(b)) => F(b, a, Add(a, b), 1) = Add(F(b, a, a, 1), F(b, a, b, 1))
  /\ Toeplitz1(a) = Transpose(Toeplitz1(a)) /\ Toeplitz2(a, a) = Toeplitz1(a)
  /\ Downsample(Upsample(T, ColM(a), 3), 3) = ColM(a)
  /\ Kron(T, ColM(a), ColM(b)).d = Transpose(Kron(T, RowM(a), RowM(b))).d
=============================================================================
