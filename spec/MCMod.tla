------------------------------- MODULE MCMod -------------------------------
(* The constellation, the decisions and the table of levels: for every order *)
(* and every received value on a grid around it, deciding each coordinate    *)
(* for itself gives a point at minimum distance.                             *)
EXTENDS Modulation, Json
CONSTANTS Orders, Step, Emit
VARIABLES M, R, y
vars == <<M, R, y>>
Init == M \in Orders /\ R \in {r \in 1..M : M % r = 0 /\ r*r <= M /\ M <= 2*r*r} /\ y = <<>>
Top == 16 * (IF M > 64 THEN 8 ELSE 5)
Next == /\ y = <<>> /\ y' \in {<<a * Step - Top, b * Step - Top>> : a, b \in 0..((2*Top) \div Step)} /\ UNCHANGED <<M, R>>
        /\ (Emit => PrintT(ToJson([m |-> M, y |-> y'])))
Spec == Init /\ [][Next]_vars
P == Grid(R, M \div R)
Decide(v, n) == LET c == {2*i - (n-1) : i \in 0..(n-1)} IN CHOOSE p \in c : \A q \in c : Abs(v - 8*p) <= Abs(v - 8*q)
PointsOK == y = <<>> => /\ Cardinality(P) = M /\ IsConstellation(M, P) /\ {<<-p[1], -p[2]>> : p \in P} = P
                        /\ \A p, q \in P : p # q => (p[1]-q[1])*(p[1]-q[1]) + (p[2]-q[2])*(p[2]-q[2]) >= 4
                        /\ 12 * Energy(P) = 4 * M * (R*R + (M \div R)*(M \div R) - 2)
DecideOK == y # <<>> => Nearest(P, y, <<Decide(y[1], R), Decide(y[2], M \div R)>>)
TableOK == y = <<>> => \A k \in 1..20 : Close(NPow(OfInt(T20[k]), 20), NPow(<<10>>, 160 + k - 1), 4000000)
=============================================================================
