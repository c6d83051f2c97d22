------------------------------ MODULE TrSolver ------------------------------
(* Validation of recorded factorisations, solutions, inverses and ranks.     *)
(* The matrix is e.x/e.s.  Factors are logged times 2^10 (unpivoted) or 2^14,*)
(* solutions and inverses of e.x (not of e.x/e.s) times 2^16.                *)
EXTENDS Solver, TraceBase
VARIABLE l
Q == 65536
QL == 16384
\* entry (i,j) of the product of fixed-point factors with scale q^2, times q; a*b/q with small error
MulQ(a, b, q) == LET x == Abs(a) y == Abs(b) IN Sgn(a) * Sgn(b) * ((x \div q) * y + ((x % q) * (y \div q)) + ((x % q) * (y % q)) \div q)
SaneM(m) == \A k \in 1..Len(m.d) : Sane(m.d[k])
Shape(m, r, c) == m.r = r /\ m.c = c /\ ElemsOk(m) /\ SaneM(m)
\* A y = b up to rounding
Solves(t, A, y, b) ==
    /\ Shape(y, A.r, 1)
    /\ \A i \in 0..(A.r-1) :
         LET g == Dot(LAMBDA k : Abs(At(A,i,k)) * (Abs(Lin(y,k)) \div 1000 + 1), A.r) IN
         Near(Dot(LAMBDA k : At(A,i,k) * Lin(y,k), A.r), Q * Lin(b,i), RowAbs(A,i) + 4 + (IF t = "f" THEN g \div 5 ELSE 0))
Inverts(t, A, v) ==
    /\ Shape(v, A.r, A.r)
    /\ \A i, j \in 0..(A.r-1) :
         LET g == Dot(LAMBDA k : Abs(At(A,i,k)) * (Abs(At(v,k,j)) \div 1000 + 1), A.r)
             gt == Dot(LAMBDA k : Abs(At(A,k,j)) * (Abs(At(v,i,k)) \div 1000 + 1), A.r) IN
         /\ Near(Dot(LAMBDA k : At(A,i,k) * At(v,k,j), A.r), IF i = j THEN Q ELSE 0, RowAbs(A,i) + 4 + (IF t = "f" THEN g \div 5 ELSE 0))
         /\ Near(Dot(LAMBDA k : At(v,i,k) * At(A,k,j), A.r), IF i = j THEN Q ELSE 0, RowAbs(Transpose(A),j) + 4 + (IF t = "f" THEN gt \div 5 ELSE 0))
\* row i of the product of the packed unit lower and upper factor, times q
LUrow(m, i, j, q) == IF j >= i THEN At(m,i,j) + Dot(LAMBDA k : MulQ(At(m,i,k), At(m,k,j), q), i)
                     ELSE Dot(LAMBDA k : MulQ(At(m,i,k), At(m,k,j), q), j + 1)
\* bound on the rounding of the logged factors and of the arithmetic
LUtol(t, m, i, j) == LET g == Dot(LAMBDA k : Abs(At(m,k,j)) \div QL + 2, m.r) + Dot(LAMBDA k : Abs(At(m,i,k)) \div QL + 2, m.r) IN 4 * g + 16 + (IF t = "f" THEN g ELSE 0)
RowIs(t, m, i, A, p, s) == \A j \in 0..(A.r-1) : Near(s * LUrow(m, i, j, QL), QL * At(A, p, j), s * LUtol(t, m, i, j))
RECURSIVE Match(_,_,_,_,_,_)
Match(t, m, A, s, i, free) == i = A.r \/ \E p \in free : RowIs(t, m, i, A, p, s) /\ Match(t, m, A, s, i + 1, free \ {p})
IsPerm(p) == /\ \A k \in 1..Len(p.d) : p.d[k] \in {0, 1}
             /\ \A i \in 0..(p.r-1) : RowAbs(p, i) = 1 /\ RowAbs(Transpose(p), i) = 1
LupOK(e) ==
    LET A == e.x n == A.r o == Outcomes(A, 1, 0, IF e.td = 0 THEN e.s ELSE e.tn, IF e.td = 0 THEN 10000 ELSE e.td) IN
    /\ e.ok \in o
    /\ e.ok = 1 => /\ Shape(e.lu, n, n)
                   /\ IF e.op = "lupalt" THEN Shape(e.p, n, n) /\ IsPerm(e.p) /\ \A i \in 0..(n-1) : RowIs(e.t, e.lu, i, A, CHOOSE p \in 0..(n-1) : At(e.p, i, p) = 1, e.s)
                      ELSE Match(e.t, e.lu, A, e.s, 0, 0..(n-1))
                   /\ Solves(e.t, A, e.y, e.b) /\ Solves(e.t, A, e.y2, e.b2) /\ Inverts(e.t, A, e.inv)
                   /\ e.srcb = e.b /\ e.srcb2 = e.b2
LuOK(e) ==
    LET A == e.x n == A.r o == Unpivoted(A) IN
    /\ e.ok \in (IF o = 2 THEN {0, 1} ELSE {o})
    /\ (e.ok = 1 /\ o # 0 /\ \A k \in 1..(n-1) : Lead(A)[k] # 0) =>
        /\ Shape(e.l, n, n) /\ Shape(e.u, n, n)
        /\ \A i, j \in 0..(n-1) :
             /\ (i < j => At(e.l,i,j) = 0) /\ (i = j => At(e.l,i,j) = 1024) /\ (i > j => At(e.u,i,j) = 0)
             /\ LET g == Dot(LAMBDA k : (Abs(At(e.l,i,k)) + Abs(At(e.u,k,j))) \div 1024 + 2, n) IN
                Near(e.s * Dot(LAMBDA k : MulQ(At(e.l,i,k), At(e.u,k,j), 1024), n), 1024 * At(A,i,j), e.s * (2 * g + 8))
OK(e) == /\ e.out = "ok" /\ e.src = e.x
         /\ CASE e.op = "lu" -> LuOK(e)
              [] e.op \in {"lup", "lupalt"} -> LupOK(e)
              [] e.op = "linsolve" -> e.srcb = e.b /\ Solves(e.t, e.x, e.y, e.b)
              [] e.op = "inv" -> Inverts(e.t, e.x, e.inv)
              [] e.op = "rank" -> e.res = Rank(e.x)
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
