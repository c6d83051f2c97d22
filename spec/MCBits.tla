------------------------------- MODULE MCBits -------------------------------
(* BitStore against packed bytes: every operation on the set is the one on   *)
(* the bytes that the bits of the set occupy, and bits beyond the capacity   *)
(* stay clear.  All histories over two names and a few capacities.           *)
EXTENDS BitStore, Json
CONSTANTS Names, Caps, Emit
VARIABLES st, by, path
Bytes(n) == (n + 7) \div 8
Clear(n) == [k \in 1..Bytes(n) |-> 0]
\* the bytes of a set, and the set of some bytes
Pack(n, S) == [k \in 1..Bytes(n) |-> SumTo(LAMBDA b : IF (8*(k-1) + b) \in S THEN 2^b ELSE 0, 0, 7)]
SetBit(v, b) == IF (v \div 2^b) % 2 = 1 THEN v ELSE v + 2^b
ClrBit(v, b) == IF (v \div 2^b) % 2 = 0 THEN v ELSE v - 2^b
Member(n, d, i) == i < n /\ (d[i \div 8 + 1] \div 2^(i % 8)) % 2 = 1
FirstOne(n, d) == LET S == {i \in 0..(n-1) : Member(n, d, i)} IN IF S = {} THEN n ELSE MinOf(S)
ByteOp(e) == LET n == st[e.x].n d == by[e.x] k == e.i \div 8 + 1 IN
    CASE e.op \in {"set", "push"} -> IF e.i < n THEN [d EXCEPT ![k] = SetBit(d[k], e.i % 8)] ELSE d
      [] e.op = "reset" -> IF e.i < n THEN [d EXCEPT ![k] = ClrBit(d[k], e.i % 8)] ELSE d
      [] OTHER -> d
NewBytes(e) ==
    CASE e.op = "new" -> Put(by, e.x, Clear(e.n))
      [] e.op \in {"copy", "assign"} -> Put(by, e.x, by[e.y])
      [] e.op = "move" -> Put(Put(by, e.x, by[e.y]), e.y, <<>>)
      [] e.op = "del" -> Drop(by, e.x)
      [] e.op = "fill" -> Put(by, e.x, FoldLeft(LAMBDA d, i : [d EXCEPT ![i \div 8 + 1] = SetBit(d[i \div 8 + 1], i % 8)], by[e.x], [k \in 1..st[e.x].n |-> k-1]))
      [] e.op = "clear" -> Put(by, e.x, Clear(st[e.x].n))
      [] e.op = "pop" -> LET p == FirstOne(st[e.x].n, by[e.x]) IN IF p = st[e.x].n THEN by ELSE Put(by, e.x, [by[e.x] EXCEPT ![p \div 8 + 1] = ClrBit(by[e.x][p \div 8 + 1], p % 8)])
      [] OTHER -> Put(by, e.x, ByteOp(e))
L == DOMAIN st
\* the indices next to the borders of the bytes and of the set
Idx(n) == {i \in {0, 8, n-1, n} : i >= 0}
Cmds == {[op |-> "new", x |-> x, n |-> n] : x \in Names, n \in Caps}
   \cup {[op |-> o, x |-> x, y |-> y] : o \in {"copy", "move", "assign"}, x \in Names, y \in Names}
   \cup {[op |-> o, x |-> x] : o \in {"fill", "clear", "pop", "del", "any"}, x \in Names}
   \cup UNION {{[op |-> o, x |-> x, i |-> i] : o \in {"set", "push", "reset", "exists"}, i \in Idx(st[x].n)} : x \in L}
Init == st = <<>> /\ by = <<>> /\ path = <<>>
Next == \E e \in Cmds : /\ Pre(st, e)
                        /\ st' = Post(st, e) /\ by' = NewBytes(e)
                        /\ path' = Append(path, e)
                        /\ (Emit => PrintT(ToJson(path')))
Spec == Init /\ [][Next]_<<st, by, path>>
View == <<st, by>>
Packed == \A x \in L : ~st[x].gone => by[x] = Pack(st[x].n, st[x].s)
Answers == \A x \in L : ~st[x].gone =>
    /\ st[x].s \subseteq 0..(st[x].n - 1)
    /\ FirstOne(st[x].n, by[x]) = Result(st, [op |-> "pop", x |-> x])
    /\ \A i \in 0..(st[x].n + 8) : (IF Member(st[x].n, by[x], i) THEN 1 ELSE 0) = Result(st, [op |-> "exists", x |-> x, i |-> i])
    /\ ((\E k \in 1..Len(by[x]) : by[x][k] # 0) <=> Result(st, [op |-> "any", x |-> x]) = 1)
Frame == [][\A x \in Names : LET e == path'[Len(path')] IN
              x = e.x \/ (e.op = "move" /\ x = e.y) \/ ((x \in DOMAIN st) = (x \in DOMAIN st') /\ (x \in DOMAIN st => st'[x] = st[x]))]_<<st, by, path>>
=============================================================================
