------------------------------- MODULE MCSvd -------------------------------
(* The decomposition relation on decompositions that are known exactly:      *)
(* signed permutations u and v and integer singular values.  It holds for    *)
(* all of them, also after the one-sided changes that an SVD leaves open     *)
(* (permuting the triples, negating a pair of columns), and it rejects every *)
(* change of a sign, of a singular value or of an entry.                     *)
EXTENDS Svd, Json
CONSTANTS Emit, Full
VARIABLES st, n, r, pu, pv, gu, gv, s, t
vars == <<st, n, r, pu, pv, gu, gv, s, t>>
Perms(k) == {f \in [0..(k-1) -> 0..(k-1)] : \A i, j \in 0..(k-1) : i # j => f[i] # f[j]}
Injs(k, q) == {f \in [0..(k-1) -> 0..(q-1)] : \A i, j \in 0..(k-1) : i # j => f[i] # f[j]}
Factor(rows, k, f, g) == Mk(rows, k, LAMBDA i, j : IF f[j] = i THEN g[j] * F20 ELSE 0)
U == Factor(r, n, pu, gu)
V == Factor(n, n, pv, gv)
S == MkLin(n, 1, LAMBDA k : s[k] * 16384)
A == Mk(r, n, LAMBDA i, j : Dot(LAMBDA k : IF pu[k] = i /\ pv[k] = j THEN gu[k] * gv[k] * s[k] ELSE 0, n))
Init == /\ st = 0 /\ n \in 1..3 /\ r \in n..(IF Full THEN 4 ELSE Min2(4, n+1)) /\ s \in [0..(n-1) -> IF n = 3 /\ ~Full THEN {0, 3} ELSE {0, 1, 5}] /\ pu = <<>> /\ pv = <<>> /\ gu = <<>> /\ gv = <<>> /\ t = <<>>
Build == /\ st = 0 /\ st' = 1 /\ pu' \in Injs(n, r) /\ pv' \in Perms(n)
         /\ gu' \in {[k \in 0..(n-1) |-> 1]} \cup {[k \in 0..(n-1) |-> IF k = 0 THEN -1 ELSE 1]}
         /\ gv' \in {[k \in 0..(n-1) |-> 1]} \cup {[k \in 0..(n-1) |-> IF k = n-1 THEN -1 ELSE 1]}
         /\ t' = <<>> /\ UNCHANGED <<n, r, s>>
\* a change of the decomposition: kind, column, row
Change == /\ st = 1 /\ st' = 2 /\ UNCHANGED <<n, r, pu, pv, gu, gv, s>>
          /\ (Emit => PrintT(ToJson(A)))
          /\ t' \in ({"pair"} \X (0..(n-1)) \X {0}) \cup ({"sv", "left", "right", "dup"} \X (0..(n-1)) \X {0}) \cup ({"entry"} \X (0..(n-1)) \X (0..(r-1)))
Next == Build \/ Change
Spec == Init /\ [][Next]_vars
Valid == st = 1 => /\ IsSvd(A, U, S, V) /\ IsSvd(Transpose(A), V, S, U)
Neg(m, j) == Mk(m.r, m.c, LAMBDA a, b : IF b = j THEN -At(m,a,b) ELSE At(m,a,b))
Judged == st = 2 =>
    LET j == t[2] i == t[3] IN
    CASE t[1] = "pair" -> IsSvd(A, Neg(U, j), S, Neg(V, j))
      [] t[1] = "sv" -> ~IsSvd(A, U, SetLin(S, j, Lin(S, j) + 3000), V) /\ (s[j] > 0 => ~IsSvd(A, Neg(U, j), SetLin(S, j, -Lin(S, j)), V))
      [] t[1] = "left" -> IsSvd(A, Neg(U, j), S, V) = (s[j] = 0)
      [] t[1] = "right" -> IsSvd(A, U, S, Neg(V, j)) = (s[j] = 0)
      [] t[1] = "dup" -> (n > 1 => ~IsSvd(A, U, S, SetCol(V, j, Col(V, (j + 1) % n))))
      [] OTHER -> (s[j] > 0 => ~IsSvd(A, SetLin(U, i + j * r, At(U, i, j) - 2000), S, V))
=============================================================================
