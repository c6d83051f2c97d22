------------------------------- MODULE Signal -------------------------------
(* Filtering, convolution, the structured matrices and resampling.           *)
EXTENDS Mat

ElemOr0(t, s, k) == IF k >= 1 /\ k <= Len(s) THEN s[k] ELSE Zero(t)
SumOver(t, F(_), lo, hi) == FoldLeft(LAMBDA acc, k : EAdd(t, acc, F(k)), Zero(t), [k \in 1..Max2(0, hi - lo + 1) |-> lo + k - 1])
\* y[n] = sum_k b[k] x[n-k] - sum_{k>=1} a[k] y[n-k], from rest, for the signal x followed by len zeros
FilterSeq(t, b, a, x, len) ==
    IF Len(a) = 1 THEN TLCEval([n \in 1..(Len(x)+len) |-> SumOver(t, LAMBDA k : EMul(t, b[k], ElemOr0(t, x, n-k+1)), 1, Len(b))])
    ELSE
    FoldLeft(LAMBDA y, n : Append(y, ESub(t, SumOver(t, LAMBDA k : EMul(t, b[k], ElemOr0(t, x, n-k+1)), 1, Len(b)),
                                              SumOver(t, LAMBDA k : EMul(t, a[k], ElemOr0(t, y, n-k+1)), 2, Len(a)))),
             <<>>, [n \in 1..(Len(x)+len) |-> n])
ColSeq(x, j) == TLCEval([i \in 1..x.r |-> x.d[i + j*x.r]])
ColM(s) == [r |-> Len(s), c |-> 1, d |-> s]
RowM(s) == [r |-> 1, c |-> Len(s), d |-> s]
\* a matrix whose columns are the sequences F(0) .. F(c-1)
OfCols(c, F(_)) == LET cs == TLCEval([j \in 1..c |-> F(j-1)]) n == Len(cs[1]) IN Mk(n, c, LAMBDA i,j : cs[j+1][i+1])
FilterM(t, b, a, x, len) == IF x.r = 1 /\ x.c > 1 THEN RowM(FilterSeq(t, b, a, x.d, len))
                            ELSE OfCols(x.c, LAMBDA j : FilterSeq(t, b, a, ColSeq(x,j), len))
ConvSeq(t, a, b) == [n \in 1..(Len(a)+Len(b)-1) |-> SumOver(t, LAMBDA k : EMul(t, a[k], ElemOr0(t, b, n-k+1)), 1, Len(a))]
\* the operand with the data is the first one if the second is a vector
ConvM(t, a, b) == IF IsScalar(b) THEN Map1(a, LAMBDA v : EMul(t, Lin(b,0), v))
                  ELSE IF IsScalar(a) THEN Map1(b, LAMBDA v : EMul(t, Lin(a,0), v))
                  ELSE LET k == IF IsVec(b) THEN b.d ELSE a.d x == IF IsVec(b) THEN a ELSE b IN
                       IF x.r = 1 THEN RowM(ConvSeq(t, k, x.d)) ELSE OfCols(x.c, LAMBDA j : ConvSeq(t, k, ColSeq(x,j)))
ConvMtx(t, v, n) == LET m == Size(v) IN
                    IF v.c = 1 THEN Mk(m+n-1, n, LAMBDA i,j : ElemOr0(t, v.d, i-j+1)) ELSE Mk(n, m+n-1, LAMBDA i,j : ElemOr0(t, v.d, j-i+1))
Toeplitz2(col, row) == Mk(Len(col), Len(row), LAMBDA i,j : IF i > j THEN col[i-j+1] ELSE row[j-i+1])
Toeplitz1(col) == Mk(Len(col), Len(col), LAMBDA i,j : col[Abs(i-j)+1])
Upsample(t, m, u) == Mk(m.r*u, m.c, LAMBDA i,j : IF i % u = 0 THEN At(m, i \div u, j) ELSE Zero(t))
Downsample(m, q) == Mk(m.r \div q, m.c, LAMBDA i,j : At(m, i*q, j))
=============================================================================
