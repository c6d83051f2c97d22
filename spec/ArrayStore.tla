----------------------------- MODULE ArrayStore -----------------------------
(* Named multi-dimensional arrays.  An array has a list of dimensions and a  *)
(* block of cells (<<>>: not specified, <<v>>: the value v); the cell of an  *)
(* index tuple is its mixed-radix value with the first index running         *)
(* fastest.  A moved-from array may only be assigned to or destroyed.        *)
EXTENDS Num
Prod(s) == FoldLeft(LAMBDA acc, v : acc * v, 1, s)
Lin(dims, t) == SumTo(LAMBDA k : t[k] * Prod(SubSeq(dims, 1, k-1)), 1, Len(t))
Tuple(dims, n) == [k \in 1..Len(dims) |-> (n \div Prod(SubSeq(dims, 1, k-1))) % dims[k]]
Arr(dims, d) == [dims |-> dims, d |-> d, gone |-> FALSE]
Blank == [dims |-> <<>>, d |-> <<>>, gone |-> FALSE]
Put(st, x, v) == [k \in DOMAIN st \cup {x} |-> IF k = x THEN v ELSE st[k]]
Drop(st, x) == [k \in DOMAIN st \ {x} |-> st[k]]
\* whether tuple t (a full tuple, or one index as a linear position) is an index of a
In(a, t) == IF Len(t) = 1 THEN t[1] < Len(a.d) ELSE Len(t) <= Len(a.dims) /\ Lin(a.dims, t) < Len(a.d)
Pos(a, t) == (IF Len(t) = 1 THEN t[1] ELSE Lin(a.dims, t)) + 1
Live(st, x) == x \in DOMAIN st /\ ~st[x].gone
\* the call is within the preconditions
Pre(st, e) ==
    CASE e.op \in {"new", "new0"} -> e.x \notin DOMAIN st
      [] e.op \in {"copy", "move"} -> e.x \notin DOMAIN st /\ Live(st, e.y)
      [] e.op = "assign" -> e.x \in DOMAIN st /\ Live(st, e.y)
      [] e.op = "del" -> e.x \in DOMAIN st
      [] e.op = "load" -> Live(st, e.x)
      [] e.op \in {"set", "get"} -> Live(st, e.x) /\ In(st[e.x], e.i)
\* the call is one whose precondition the library checks
Stop(st, e) == e.op \in {"set", "get"} /\ Live(st, e.x) /\ ~In(st[e.x], e.i)
Post(st, e) ==
    CASE e.op = "new" -> Put(st, e.x, Arr(e.dims, [k \in 1..Prod(e.dims) |-> <<>>]))
      [] e.op = "new0" -> Put(st, e.x, Blank)
      [] e.op = "copy" -> Put(st, e.x, st[e.y])
      [] e.op = "move" -> Put(Put(st, e.x, st[e.y]), e.y, [Blank EXCEPT !.gone = TRUE])
      [] e.op = "assign" -> Put(st, e.x, st[e.y])
      [] e.op = "del" -> Drop(st, e.x)
      [] e.op = "load" -> Put(st, e.x, Arr(st[e.x].dims, [k \in 1..Len(e.v) |-> <<e.v[k]>>]))
      [] e.op = "set" -> Put(st, e.x, [st[e.x] EXCEPT !.d[Pos(st[e.x], e.i)] = <<e.v>>])
      [] OTHER -> st
=============================================================================
