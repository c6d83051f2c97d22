------------------------------ MODULE Convert ------------------------------
(* Conversion of a matrix from element type t to element type t2.  Values of *)
(* floating-point types appear multiplied by the scale s of the event.       *)
EXTENDS Mat
IsFloat(t) == t \in {"f", "d", "cf", "cd"}
Conv1(t, t2, s, a) == IF IsFloat(t) THEN (IF IsFloat(t2) THEN a ELSE Wrap8(t2, TDiv(a, s)))
                                    ELSE (IF IsFloat(t2) THEN a * s ELSE Wrap8(t2, a))
ConvE(t, t2, s, a) == IF IsCx(t) THEN <<Conv1(t, t2, s, a[1]), Conv1(t, t2, s, a[2])>> ELSE Conv1(t, t2, s, a)
ConvM(t, t2, s, m) == Map1(m, LAMBDA a : ConvE(t, t2, s, a))
=============================================================================
