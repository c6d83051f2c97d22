------------------------------- MODULE Print --------------------------------
(* What the stream output of a value is: a sequence of character codes.      *)
(* Integers are themselves, real numbers are sixteenths, complex ones pairs; *)
(* a value is a record with its kind k.                                      *)
EXTENDS Mat

RECURSIVE NatText(_), Trim(_), ValText(_), Join(_,_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))
IntText(n) == IF n < 0 THEN <<45>> \o NatText(-n) ELSE NatText(n)
Trim(s) == IF s = <<>> \/ s[Len(s)] # 48 THEN s ELSE Trim(SubSeq(s, 1, Len(s) - 1))
Fraction(r) == LET q == r * 625 IN Trim(<<48 + (q \div 1000), 48 + ((q \div 100) % 10), 48 + ((q \div 10) % 10), 48 + (q % 10)>>)
RealText(x) == LET a == IF x < 0 THEN -x ELSE x IN
               (IF x < 0 THEN <<45>> ELSE <<>>) \o NatText(a \div 16) \o (IF a % 16 = 0 THEN <<>> ELSE <<46>> \o Fraction(a % 16))
Comma == <<44, 32>>
Join(parts, sep) == IF parts = <<>> THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1]
                    ELSE FoldLeft(LAMBDA acc, p : acc \o sep \o p, parts[1], SubSeq(parts, 2, Len(parts)))
Paren(s) == <<40>> \o s \o <<41>>
\* one number of element type t
NumText(t, x) == CASE t \in {"i", "b", "u", "w"} -> IntText(x)
                   [] t \in {"d", "f"} -> RealText(x)
                   [] t = "s" -> x
                   [] t \in {"c", "cf"} -> Paren(RealText(x[1]) \o <<44>> \o RealText(x[2]))
                   [] t \in {"cb", "cu"} -> Paren(IntText(x[1]) \o <<44>> \o IntText(x[2]))
\* the elements of a standard vector are each followed by a comma and a blank,
\* of which the last ones are taken back
VecText(t, d) == IF d = <<>> THEN <<>>
                 ELSE <<91>> \o FoldLeft(LAMBDA acc, x : acc \o NumText(t, x) \o Comma, <<>>, d) \o <<8, 8, 93>>
MatText(t, r, c, d) ==
    <<91>> \o Join([i \in 1..r |-> Join([j \in 1..c |-> NumText(t, d[(j-1) * r + i])], <<32>>)], <<10, 32>>) \o <<93>>
ValText(v) == CASE v.k = "num" -> NumText(v.t, v.x)
                [] v.k = "vec" -> VecText(v.t, v.x)
                [] v.k = "mat" -> MatText(v.t, v.r, v.c, v.x)
                [] v.k = "pair" -> Paren(ValText(v.a) \o Comma \o ValText(v.b))
                [] v.k = "tup" -> Paren(Join([j \in 1..Len(v.x) |-> ValText(v.x[j])], Comma))
=============================================================================
