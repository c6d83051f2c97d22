------------------------------ MODULE MCPrint -------------------------------
(* All small values printed to a stream.           The text of a matrix is    *)
(* read back by the reader of the library's own format (module Text), and    *)
(* different values of a kind have different texts.                          *)
EXTENDS Print, Json
T == INSTANCE Text
CONSTANT Longest
VARIABLES shown, text
Ints == {-12, -1, 0, 7, 10}
Reals == {-24, -1, 0, 8, 161}
Of(t) == IF t = "i" THEN Ints ELSE Reals
Lists(t, n) == UNION {[1..m -> Of(t)] : m \in 0..n}
Mats(t) == UNION {UNION {{[k |-> "mat", t |-> t, r |-> r, c |-> c, x |-> f] : f \in [1..r*c -> Of(t)]} : c \in {1, 2}} : r \in {1}}
           \union {[k |-> "mat", t |-> t, r |-> 2, c |-> 1, x |-> f] : f \in [1..2 -> Of(t)]}
           \union {[k |-> "mat", t |-> t, r |-> 2, c |-> 2, x |-> <<a, b, a, c>>] : a, b, c \in Of(t)}
Vecs(t) == {[k |-> "vec", t |-> t, x |-> f] : f \in Lists(t, 2)}
Pairs == {[k |-> "pair", a |-> [k |-> "num", t |-> "i", x |-> a], b |-> [k |-> "num", t |-> "d", x |-> b]] : a \in Ints, b \in Reals}
Tups == {[k |-> "tup", x |-> <<>>]} \union {[k |-> "tup", x |-> <<[k |-> "num", t |-> "i", x |-> a]>>] : a \in Ints}
        \union {[k |-> "tup", x |-> <<[k |-> "num", t |-> "i", x |-> a], [k |-> "num", t |-> "d", x |-> b]>>] : a \in Ints, b \in Reals}
Kinds == <<Mats("i"), Mats("d"), Vecs("i"), Vecs("d"), Pairs, Tups>>
Init == shown = <<>> /\ text = <<>>
Next == Len(shown) < Longest /\ \E j \in 1..Len(Kinds) : \E v \in Kinds[j] :
           /\ shown' = Append(shown, v) /\ text' = text \o ValText(v) /\ PrintT(ToJson([v |-> v]))
Spec == Init /\ [][Next]_<<shown, text>>
ReadsBack == (Len(shown) = 1 /\ shown[1].k = "mat" /\ shown[1].t = "i") => T!Parse(text, 0) = [r |-> shown[1].r, c |-> shown[1].c, d |-> shown[1].x]
ReadsReal == (Len(shown) = 1 /\ shown[1].k = "mat" /\ shown[1].t = "d") => T!Parse(text, 4) = [r |-> shown[1].r, c |-> shown[1].c, d |-> [j \in 1..Len(shown[1].x) |-> shown[1].x[j] * 625]]
ASSUME \A j \in 1..Len(Kinds) : Cardinality({ValText(v) : v \in Kinds[j]}) = Cardinality(Kinds[j])
=============================================================================
