------------------------------ MODULE BitStore ------------------------------
(* Named bit sets: a capacity and the set of members below it.               *)
EXTENDS Num
MinOf(S) == CHOOSE v \in S : \A w \in S : v <= w
Put(st, x, v) == [k \in DOMAIN st \cup {x} |-> IF k = x THEN v ELSE st[k]]
Drop(st, x) == [k \in DOMAIN st \ {x} |-> st[k]]
Set(n, S) == [n |-> n, s |-> S, gone |-> FALSE]
Live(st, x) == x \in DOMAIN st /\ ~st[x].gone
Pre(st, e) ==
    CASE e.op = "new" -> e.x \notin DOMAIN st
      [] e.op \in {"copy", "move"} -> e.x \notin DOMAIN st /\ Live(st, e.y)
      [] e.op = "assign" -> e.x \in DOMAIN st /\ Live(st, e.y)
      [] e.op = "del" -> e.x \in DOMAIN st
      [] OTHER -> Live(st, e.x)
With(st, x, S) == [st EXCEPT ![x].s = S]
Post(st, e) ==
    CASE e.op = "new" -> Put(st, e.x, Set(e.n, {}))
      [] e.op \in {"copy", "assign"} -> Put(st, e.x, st[e.y])
      [] e.op = "move" -> Put(Put(st, e.x, st[e.y]), e.y, [n |-> 0, s |-> {}, gone |-> TRUE])
      [] e.op = "del" -> Drop(st, e.x)
      [] e.op \in {"set", "push"} -> IF e.i < st[e.x].n THEN With(st, e.x, st[e.x].s \cup {e.i}) ELSE st
      [] e.op = "reset" -> With(st, e.x, st[e.x].s \ {e.i})
      [] e.op = "fill" -> With(st, e.x, 0..(st[e.x].n - 1))
      [] e.op = "clear" -> With(st, e.x, {})
      [] e.op = "pop" -> IF st[e.x].s = {} THEN st ELSE With(st, e.x, st[e.x].s \ {MinOf(st[e.x].s)})
      [] OTHER -> st
\* the value a call returns
Result(st, e) ==
    CASE e.op = "pop" -> IF st[e.x].s = {} THEN st[e.x].n ELSE MinOf(st[e.x].s)
      [] e.op = "exists" -> IF e.i \in st[e.x].s THEN 1 ELSE 0
      [] e.op = "any" -> IF st[e.x].s # {} THEN 1 ELSE 0
      [] OTHER -> 0
=============================================================================
