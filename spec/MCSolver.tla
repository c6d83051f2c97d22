------------------------------ MODULE MCSolver ------------------------------
(* The pivoted elimination as a transition system, with every choice among   *)
(* equal pivots: for every small matrix every run keeps P A equal to the     *)
(* product of the factors so far, stops early exactly for singular matrices, *)
(* and the rank is the size of the largest non-zero minor.                   *)
EXTENDS Solver, Json
CONSTANTS Emit, Raw2, Raw3
VARIABLES a, m, p, prev, k, st
vars == <<a, m, p, prev, k, st>>
Shapes2 == {<<1,1>>, <<2,2>>, <<3,3>>, <<2,3>>, <<3,2>>, <<1,3>>, <<3,1>>}
V2 == {v - 4 : v \in Raw2}
V3 == {v - 4 : v \in Raw3}
Vals(z) == IF z[1]*z[2] > 4 THEN V3 ELSE V2
Init == \E z \in Shapes2 : \E d \in [1..Min2(2, z[1]*z[2]) -> Vals(z)] :
        /\ a = [r |-> z[1], c |-> z[2], d |-> d] /\ m = a /\ p = [i \in 1..a.r |-> i-1] /\ prev = 1 /\ k = 0 /\ st = "pick"
Pick == /\ st = "pick" /\ st' = "new" /\ \E d \in [1..(a.r*a.c - Len(a.d)) -> Vals(<<a.r, a.c>>)] : a' = [a EXCEPT !.d = @ \o d]
        /\ m' = a' /\ UNCHANGED <<p, prev, k>>
Start == /\ st = "new" /\ st' = IF a.r = a.c THEN "run" ELSE "rank"
         /\ UNCHANGED <<a, m, p, prev, k>>
         /\ (Emit => PrintT(ToJson(a)))
Pivot == /\ st = "run" /\ k < a.r /\ MaxPiv(m, k) # 0
         /\ \E i \in PivRows(m, k) :
              /\ m' = Step(m, prev, k, i) /\ prev' = At(m, i, k) /\ k' = k + 1
              /\ p' = [p EXCEPT ![i+1] = p[k+1], ![k+1] = p[i+1]]
         /\ UNCHANGED <<a, st>>
Fail == st = "run" /\ k < a.r /\ MaxPiv(m, k) = 0 /\ st' = "singular" /\ UNCHANGED <<a, m, p, prev, k>>
Finish == st = "run" /\ k = a.r /\ st' = "regular" /\ UNCHANGED <<a, m, p, prev, k>>
Next == Pick \/ Start \/ Pivot \/ Fail \/ Finish
Spec == Init /\ [][Next]_vars
\* L(i,q) = M(i,q)/D(q), U(q,j) = M(q,j)/D(q-1) with D(q) = M(q,q), D(-1) = 1: (P A)(i,j) times all the D
DD(q) == IF q < 0 THEN 1 ELSE At(m, q, q)
RECURSIVE ProdD(_)
ProdD(q) == IF q < 0 THEN 1 ELSE DD(q) * ProdD(q-1)
Factors == (st = "regular" /\ a.r <= 3) => \A i, j \in 0..(a.r-1) :
    ProdD(a.r-1) * ProdD(a.r-2) * At(a, p[i+1], j) =
      Dot(LAMBDA q : (ProdD(a.r-1) * ProdD(a.r-2) * At(m,i,q) * At(m,q,j)) \div (DD(q) * DD(q-1)), 1 + Min2(i, j))
Sing == (st = "singular" => Det(a) = 0) /\ (st = "regular" => Det(a) # 0 /\ Abs(prev) = Abs(Det(a)))
OutOK == st = "new" /\ a.r = a.c => Outcomes(a, 1, 0, 1, 10000) = {IF Det(a) = 0 THEN 0 ELSE 1}
Minor(R, C) == LET f == SetToSeq(R) g == SetToSeq(C) IN Mk(Len(f), Len(f), LAMBDA i, j : At(a, f[i+1]-1, g[j+1]-1))
RankOK == st = "new" => LET r == Rank(a) IN
    /\ r = Rank(Transpose(a))
    /\ (r > 0 => \E R \in SUBSET (1..a.r), C \in SUBSET (1..a.c) : Cardinality(R) = r /\ Cardinality(C) = r /\ Det(Minor(R, C)) # 0)
    /\ (r < Min2(a.r, a.c) => \A R \in SUBSET (1..a.r), C \in SUBSET (1..a.c) : (Cardinality(R) = r+1 /\ Cardinality(C) = r+1) => Det(Minor(R, C)) = 0)
=============================================================================
