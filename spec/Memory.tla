------------------------------- MODULE Memory -------------------------------
(* Owners of element storage: matrices "m", arrays "a" and standard vectors  *)
(* "v" that use the logging allocator.  An owner has a number of elements of *)
(* some size; the used memory is the sum of all of them.  A call may lose    *)
(* an allocation (hit = 1).                                                  *)
EXTENDS Num
Put(st, x, v) == [k \in DOMAIN st \cup {x} |-> IF k = x THEN v ELSE st[k]]
Drop(st, x) == [k \in DOMAIN st \ {x} |-> st[k]]
Used(st) == FoldSet(LAMBDA x, acc : acc + st[x].n * st[x].sz, 0, DOMAIN st)
Own(k, sz, n) == [k |-> k, sz |-> sz, n |-> n]
Makes(e) == e.op \in {"new", "fill", "text", "copy", "move", "new0"}
Pre(st, e) ==
    CASE e.op \in {"new", "new0", "fill", "text"} -> e.x \notin DOMAIN st
      [] e.op \in {"copy", "move"} -> e.x \notin DOMAIN st /\ e.y \in DOMAIN st
      [] e.op \in {"assign", "swap"} -> e.x \in DOMAIN st /\ e.y \in DOMAIN st /\ st[e.x].k = st[e.y].k /\ st[e.x].sz = st[e.y].sz
      [] OTHER -> e.x \in DOMAIN st
\* the number of elements of the target if every allocation succeeds
Want(st, e) ==
    CASE e.op \in {"new", "fill", "text", "tmp", "resize", "load", "parse"} -> e.n
      [] e.op = "new0" -> 0
      [] e.op \in {"copy", "move", "assign"} -> st[e.y].n
      [] OTHER -> st[e.x].n
\* the states after a call that lost no allocation
Full(st, e) ==
    CASE e.op \in {"new", "fill", "text", "new0"} -> Put(st, e.x, Own(e.k, e.sz, Want(st, e)))
      [] e.op = "copy" -> Put(st, e.x, st[e.y])
      [] e.op = "move" -> Put(Put(st, e.x, st[e.y]), e.y, [st[e.y] EXCEPT !.n = 0])
      [] e.op \in {"assign", "tmp", "resize", "load", "parse"} -> [st EXCEPT ![e.x].n = Want(st, e)]
      [] e.op = "swap" -> [st EXCEPT ![e.x] = st[e.y], ![e.y] = st[e.x]]
      [] e.op = "del" -> Drop(st, e.x)
      [] OTHER -> st
\* ... and after one that did: the target is empty, as before, or not there at all if the call ended with an exception
Lost(st, e) ==
    IF e.op = "swap" THEN {[st EXCEPT ![e.x].n = a, ![e.y].n = b] : a \in {0, st[e.x].n, st[e.y].n}, b \in {0, st[e.x].n, st[e.y].n}}
    ELSE IF e.x \in DOMAIN st THEN {st, [st EXCEPT ![e.x].n = 0], Full(st, e)}
    ELSE {st, Put(st, e.x, IF "k" \in DOMAIN e THEN Own(e.k, e.sz, 0) ELSE [st[e.y] EXCEPT !.n = 0]), Full(st, e)}
Post(st, e, hit) == IF hit = 0 THEN {Full(st, e)} ELSE Lost(st, e)
=============================================================================
