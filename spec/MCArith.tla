------------------------------ MODULE MCArith ------------------------------
(* The laws of elementwise arithmetic, on all pairs of small matrices over   *)
(* values that reach the limits of the element types, and of the conversions *)
(* that are defined on them.                                                 *)
EXTENDS MatrixStore, Convert
CONSTANTS MaxR, MaxC
VARIABLES ty, a, b, v
Vals(t) == CASE t = "i" -> {-3, 0, 7} [] t = "b" -> {-128, -1, 127} [] t = "u" -> {0, 3, 255} [] OTHER -> {<<1, -2>>, <<0, 3>>}
Mats(t) == UNION {{[r |-> r, c |-> c, d |-> d] : d \in [1..(r*c) -> Vals(t)]} : r \in 1..MaxR, c \in 1..MaxC}
Init == /\ ty \in {"i", "b", "u", "cd"} /\ a \in Mats(ty) /\ v \in Vals(ty)
        /\ b = EmptyM
Next == b = EmptyM /\ b' \in [r : {a.r}, c : {a.c}, d : [1..Size(a) -> Vals(ty)]] /\ UNCHANGED <<ty, a, v>>
Spec == Init /\ [][Next]_<<ty, a, b, v>>
O(op, m, n) == Val(ty, 1, [op |-> op, v |-> v], m, n)
Laws == b # EmptyM =>
        /\ O("sub", O("add", a, b), b) = a
        /\ O("add", a, b) = O("add", b, a)
        /\ O("mul", a, b) = O("mul", b, a)
        /\ O("add", a, b) = O("sub", a, O("sub", b, O("add", b, b)))
        /\ O("subs", O("adds", a, b), b) = a
        /\ O("sadd", a, b) = O("adds", a, b) /\ O("smul", a, b) = O("muls", a, b)
        /\ O("adds", a, b) = O("add", a, Fill(a.r, a.c, v)) /\ O("muls", a, b) = O("mul", a, Fill(a.r, a.c, v))
        /\ O("ssub", a, b) = O("sub", Fill(a.r, a.c, v), a)
        /\ O("sub", O("ssub", a, b), O("ssub", a, b)) = Fill(a.r, a.c, Zero(ty))
        /\ (ty = "i" => \A x \in {-7, -1, 2, 5} : LET q == Val(ty, 1, [op |-> "divs", v |-> x], a, b) IN
              \A k \in 1..Len(a.d) : LET rest == a.d[k] - x * q.d[k] IN Abs(rest) < Abs(x) /\ (rest = 0 \/ Sgn(rest) = Sgn(a.d[k])))
        /\ (ty # "cd" => ConvM("i", ty, 1, ConvM(ty, "i", 1, a)) = a /\ ConvM("d", ty, 4, ConvM(ty, "d", 4, a)) = a)
TypeOK == b # EmptyM => \A k \in 1..Len(a.d) : LET r == O("mul", a, b).d[k] IN
            CASE ty = "b" -> r \in -128..127 [] ty = "u" -> r \in 0..255 [] OTHER -> TRUE
=============================================================================
