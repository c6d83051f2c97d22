-------------------------------- MODULE MCMT --------------------------------
(* The generator itself: published words of the sequence, linearity of its   *)
(* transitions over GF(2), and a state machine of two generators that draw,  *)
(* are copied and are re-seeded, in which every generator stays on the       *)
(* sequence of its seed.  The histories are the scripts for the library.     *)
EXTENDS MT, Json
CONSTANTS Depth
VARIABLES part, g, at, hist

Seeds == <<<<0, 5489>>, <<0, 1>>, <<65535, 65535>>, <<0, 0>>, <<32768, 0>>>>
Len1 == 1900
ASSUME TLCSet(1, [s \in 1..2 |-> Draw(Seeded(Seeds[s]), Len1).w])
Seq1 == TLCGet(1)
Published == /\ SubSeq(Draw(Seeded(Default), 3).w, 1, 3) = <<<<53393, 47964>>, <<8878, 40694>>, <<59361, 64238>>>>      \* 3499211612 581869302 3890346734
             /\ Draw(Seeded(Default), 10000).w[10000] = <<62922, 3803>>                                                 \* 4123659995
             /\ SubSeq(Draw(Seeded(<<0,1>>), 2).w, 1, 2) = <<<<27329, 62501>>, <<65351, 33003>>>>                        \* 1791095845 4282876139
Samples == {<<0,0>>, <<65535,65535>>, <<4660,22136>>, <<40236,22144>>} \cup {<<2^a, 0>> : a \in 0..15} \cup {<<0, 2^a>> : a \in 0..15}
TemperLinear == \A u, v \in Samples : Temper(WXor(u, v)) = WXor(Temper(u), Temper(v))
TemperOneToOne == \A u, v \in Samples : Temper(u) = Temper(v) => u = v
GXor(x, y) == [h |-> [k \in 1..NN |-> XorH(x.h[k], y.h[k])], l |-> [k \in 1..NN |-> XorH(x.l[k], y.l[k])], i |-> NN]
TwistLinear == LET a == Seeded(<<0,7>>) b == Seeded(<<48879,1>>) IN Twist(GXor(a, b)) = GXor(Twist(a), Twist(b)) \/ LET x == Twist(GXor(a,b)) y == GXor(Twist(a),Twist(b)) IN x.h = y.h /\ x.l = y.l

Counts == {1, 623, 624, 625}
SkipDraws == \A n \in {0, 1, 623, 624, 625, 1248, 1300} : LET a == Skip(Seeded(<<0,1>>), n) IN One(a).w = One(Draw(Seeded(<<0,1>>), n).g).w
Init == \/ part = "laws" /\ g = <<>> /\ at = <<>> /\ hist = <<>>
        \/ \E s \in 1..2 : part = "life" /\ g = <<Seeded(Seeds[s]), Seeded(Seeds[s])>> /\ at = <<<<s,0>>, <<s,0>>>> /\ hist = <<<<"new", s>>>>
DrawN(x, n) == /\ g' = [g EXCEPT ![x] = Draw(g[x], n).g] /\ at' = [at EXCEPT ![x][2] = @ + n] /\ hist' = Append(hist, <<"draw", x, n>>)
Copy(x) == /\ g' = [g EXCEPT ![x] = g[3-x]] /\ at' = [at EXCEPT ![x] = at[3-x]] /\ hist' = Append(hist, <<"copy", x>>)
Reseed(x, s) == /\ g' = [g EXCEPT ![x] = Seeded(Seeds[s])] /\ at' = [at EXCEPT ![x] = <<s, 0>>] /\ hist' = Append(hist, <<"seed", x, s>>)
Next == \/ /\ part = "laws" /\ part' = "done" /\ UNCHANGED <<g, at, hist>>
           /\ Assert(SkipDraws, "skip") /\ Assert(Published, "published words") /\ Assert(TemperLinear, "linearity of the tempering") /\ Assert(TemperOneToOne, "tempering") /\ Assert(TwistLinear, "linearity of the recurrence")
        \/ /\ part = "life" /\ Len(hist) <= Depth /\ part' = part
           /\ \E x \in 1..2 : (\E n \in Counts : DrawN(x, n)) \/ Copy(x) \/ (\E s \in 1..2 : Reseed(x, s))
           /\ (Len(hist') = Depth + 1 => PrintT(ToJson(hist')))
Spec == Init /\ [][Next]_<<part, g, at, hist>>
\* every generator is on the sequence of its seed, at the position that the history implies
OnSequence == part = "life" => \A x \in 1..2 : at[x][2] < Len1 => One(g[x]).w[1] = Seq1[at[x][1]][at[x][2] + 1]
=============================================================================
