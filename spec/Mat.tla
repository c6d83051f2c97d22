-------------------------------- MODULE Mat --------------------------------
(* Matrices as values: [r, c, d] with r rows, c columns and the elements d   *)
(* in column-major order.  Row, column and linear indices start at zero.     *)
EXTENDS Num

EmptyM == [r |-> 0, c |-> 0, d |-> <<>>]
Size(m)     == m.r * m.c
IsVec(m)    == (m.r = 1 /\ m.c > 1) \/ (m.r > 1 /\ m.c = 1)
IsScalar(m) == m.r = 1 /\ m.c = 1
IsSquare(m) == m.r = m.c
Mk(r,c,F(_,_)) == [r |-> r, c |-> c, d |-> [k \in 1..(r*c) |-> F((k-1) % r, (k-1) \div r)]]
MkLin(r,c,F(_)) == [r |-> r, c |-> c, d |-> [k \in 1..(r*c) |-> F(k-1)]]
Fill(r,c,v) == MkLin(r, c, LAMBDA k : v)
At(m,i,j)   == m.d[i + j * m.r + 1]
Lin(m,k)    == m.d[k + 1]
ElemsOk(m)  == Len(m.d) = m.r * m.c

Row(m,i)  == Mk(1, m.c, LAMBDA a,b : At(m,i,b))
Col(m,j)  == Mk(m.r, 1, LAMBDA a,b : At(m,a,j))
\* w columns (or w elements of a vector) from position b on
Part(m,b,w) == IF IsVec(m)
               THEN (IF m.r = 1 THEN MkLin(1, w, LAMBDA k : Lin(m,b+k)) ELSE MkLin(w, 1, LAMBDA k : Lin(m,b+k)))
               ELSE Mk(m.r, w, LAMBDA i,j : At(m,i,b+j))
PartLen(m)  == IF IsVec(m) THEN Size(m) ELSE m.c
Left(m,w)   == Part(m, 0, w)
Right(m,w)  == Part(m, PartLen(m) - w, w)
Mid(m,b,e)  == Part(m, b, e - b + 1)
Shrink(m,i,j) == Mk(m.r-1, m.c-1, LAMBDA a,b : At(m, IF a >= i THEN a+1 ELSE a, IF b >= j THEN b+1 ELSE b))
Reshape(m,r,c) == [r |-> r, c |-> c, d |-> m.d]
SetLin(m,k,v) == [m EXCEPT !.d = [@ EXCEPT ![k+1] = v]]
SetRow(m,i,s) == Mk(m.r, m.c, LAMBDA a,b : IF a = i THEN Lin(s,b) ELSE At(m,a,b))
SetCol(m,j,s) == Mk(m.r, m.c, LAMBDA a,b : IF b = j THEN Lin(s,a) ELSE At(m,a,b))
SwapRows(m,i,k) == Mk(m.r, m.c, LAMBDA a,b : At(m, IF a = i THEN k ELSE IF a = k THEN i ELSE a, b))
SwapCols(m,i,k) == Mk(m.r, m.c, LAMBDA a,b : At(m, a, IF b = i THEN k ELSE IF b = k THEN i ELSE b))

Map1(m,F(_)) == [r |-> m.r, c |-> m.c, d |-> [k \in 1..Len(m.d) |-> F(m.d[k])]]
MZip(m,n,F(_,_)) == [r |-> m.r, c |-> m.c, d |-> [k \in 1..Len(m.d) |-> F(m.d[k], n.d[k])]]
SameShape(m,n) == m.r = n.r /\ m.c = n.c

Transpose(m) == Mk(m.c, m.r, LAMBDA i,j : At(m,j,i))
Hermitian(m) == Mk(m.c, m.r, LAMBDA i,j : EConj(At(m,j,i)))
Reverse1(m)  == MkLin(m.r, m.c, LAMBDA k : Lin(m, Size(m)-1-k))
FlipLR(m) == IF m.r = 1 \/ m.c = 1 THEN Reverse1(m) ELSE Mk(m.r, m.c, LAMBDA i,j : At(m, i, m.c-1-j))
FlipUD(m) == IF m.r = 1 \/ m.c = 1 THEN Reverse1(m) ELSE Mk(m.r, m.c, LAMBDA i,j : At(m, m.r-1-i, j))
VCat(m,n) == Mk(m.r+n.r, m.c, LAMBDA i,j : IF i < m.r THEN At(m,i,j) ELSE At(n,i-m.r,j))
HCat(m,n) == Mk(m.r, m.c+n.c, LAMBDA i,j : IF j < m.c THEN At(m,i,j) ELSE At(n,i,j-m.c))
Concat(m,n) == IF m.c = n.c THEN VCat(m,n) ELSE HCat(m,n)
Eye(t,n)  == Mk(n, n, LAMBDA i,j : FromInt(t, IF i = j THEN 1 ELSE 0))

\* the sum of F(0..n-1) in the element type
ESum(t,F(_),n) == FoldLeft(LAMBDA acc, k : EAdd(t, acc, F(k)), Zero(t), [k \in 1..n |-> k-1])
MatMul(t,m,n) == Mk(m.r, n.c, LAMBDA i,j : ESum(t, LAMBDA k : EMul(t, At(m,i,k), At(n,k,j)), m.c))

\* determinant of an integer matrix by the Leibniz formula along the first row
RECURSIVE Det(_)
Det(m) == IF m.r = 1 THEN Lin(m,0)
          ELSE FoldLeft(LAMBDA acc, j : acc + (IF j % 2 = 0 THEN 1 ELSE -1) * At(m,0,j) * (IF At(m,0,j) = 0 THEN 0 ELSE Det(Shrink(m,0,j))), 0, [k \in 1..m.c |-> k-1])

Kron(t,m,n) == Mk(m.r*n.r, m.c*n.c, LAMBDA i,j : EMul(t, At(m, i \div n.r, j \div n.c), At(n, i % n.r, j % n.c)))
=============================================================================
