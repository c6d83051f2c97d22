------------------------------- MODULE Guard --------------------------------
(* The preconditions of the functions that state one: a call within them     *)
(* returns, a call outside stops the program.                                *)
EXTENDS Num
VecSh(r, c) == (r = 1 /\ c > 1) \/ (r > 1 /\ c = 1)
ScalSh(r, c) == r = 1 /\ c = 1
None(r, c) == r * c = 0
Powers == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Meets(e) ==
    CASE e.op \in {"find", "sort", "sort_indices"} -> VecSh(e.r, e.c)
      [] e.op \in {"select_least", "select_most"} -> VecSh(e.r, e.c) /\ e.n <= e.r * e.c
      [] e.op = "select_limited" -> VecSh(e.r, e.c) /\ e.n <= e.k /\ e.from + e.k <= e.r * e.c
      [] e.op = "dijkstra" -> e.r = e.c /\ e.n < e.r
      [] e.op = "conv" -> \/ VecSh(e.r, e.c) \/ VecSh(e.r2, e.c2) \/ ScalSh(e.r, e.c) \/ ScalSh(e.r2, e.c2)
      [] e.op = "convmtx" -> VecSh(e.r, e.c)
      [] e.op \in {"lu", "lup"} -> e.r = e.c
      [] e.op = "radix2" -> (IF VecSh(e.r, e.c) THEN e.r * e.c ELSE e.r) \in Powers
      [] e.op = "ccode" -> e.k = 1 /\ e.m > 0 /\ e.m < 32
      [] e.op = "setgen" -> e.k < e.n
      [] e.op = "rrc" -> e.n > 0 /\ e.n % 2 = 1
\* calls that the documentation leaves open: selecting nothing, scalars where vectors are expected, empty operands of functions without a check
Free(e) ==
    CASE e.op \in {"find", "sort", "sort_indices"} -> ScalSh(e.r, e.c)
      [] e.op \in {"select_least", "select_most", "select_limited"} -> e.n = 0 \/ ScalSh(e.r, e.c)
      [] e.op = "convmtx" -> e.n = 0 \/ ScalSh(e.r, e.c)
      [] e.op \in {"dijkstra", "lu", "lup", "radix2"} -> None(e.r, e.c)
      [] e.op = "conv" -> None(e.r, e.c) \/ None(e.r2, e.c2)
      [] e.op \in {"ccode", "setgen"} -> e.n = 0
      [] OTHER -> FALSE
Outcomes(e) == IF Free(e) THEN {"ok", "abort"} ELSE IF Meets(e) THEN {"ok"} ELSE {"abort"}
=============================================================================
