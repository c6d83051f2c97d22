------------------------------ MODULE TrScalar ------------------------------
(* Validation of recorded calls of the scalar helpers.                       *)
EXTENDS Big, Phi, TraceBase
VARIABLE l
Step(e) == IF "dec" \in DOMAIN e /\ e.dec > 0 THEN (IF e.dec >= 5 THEN 1 ELSE 100000 \div (10^(e.dec))) ELSE 100000
Call(e) ==
    CASE e.op = "pow"  -> e.res = ZPow(e.b, e.p)
      [] e.op = "log2" -> NCmp(NPow(<<2>>, e.res), e.a) <= 0 /\ NCmp(e.a, NPow(<<2>>, e.res + 1)) < 0
      \* qq is some integer with a = qq m + res; the result lies between zero and the modulus
      [] e.op = "mod"  -> /\ e.a = ZAdd(ZMul(e.qq, e.m), e.res)
                          /\ e.res[1] \in {0, e.m[1]} /\ NCmp(e.res[2], e.m[2]) < 0
      [] e.op = "sign" -> e.res = Sgn(e.v)
      [] e.op = "round" -> LET st == Step(e) IN IF st = 1 THEN Near(e.res, e.v, 1) ELSE e.res % st = 0 /\ 2 * Abs(e.res - e.v) <= st
      [] e.op = "roundbig" -> e.res = e.a
      [] e.op = "normcdf" -> Abs(e.res - Cdf(e.v)) <= 180
      [] e.op = "qfunc" -> Abs(e.res - (One - Cdf(e.v))) <= 180
OK(e) == e.out = "ok" /\ Call(e)
Init == l = 1
Next == l <= Len(Tr) /\ (OK(Tr[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
