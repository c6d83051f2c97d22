------------------------------ MODULE MCArray ------------------------------
(* The blocks of ArrayStore against the meaning of an array: a map from      *)
(* index tuples to values.  Both are changed side by side; in every state    *)
(* each array's cells, read by tuple, are its map, and the positions of the  *)
(* tuples are a bijection onto the block.                                    *)
EXTENDS ArrayStore, Json
CONSTANTS Names, Emit, Wide
VARIABLES st, mp, path
DimsSet == {<<3>>, <<2, 1>>, <<1, 2, 2>>} \cup (IF Wide THEN {<<2, 2>>, <<1, 3>>} ELSE {})
Vals == IF Wide THEN {1, 2} ELSE {1}
Tuples(dims) == {t \in [1..Len(dims) -> 0..2] : \A k \in 1..Len(dims) : t[k] < dims[k]}
Map(dims, F(_)) == [t \in Tuples(dims) |-> F(t)]
Full(a) == ~a.gone /\ a.dims # <<>> /\ Len(a.d) = Prod(a.dims)
L == DOMAIN st
Cmds == {[op |-> "new", x |-> x, dims |-> d] : x \in Names, d \in DimsSet}
   \cup {[op |-> "new0", x |-> x] : x \in Names}
   \cup {[op |-> o, x |-> x, y |-> y] : o \in {"copy", "move", "assign"}, x \in Names, y \in Names}
   \cup {[op |-> "del", x |-> x] : x \in Names}
   \cup {[op |-> "load", x |-> x, v |-> v] : x \in L, v \in {<<1, 2, 1, 2>>, <<2, 1>>}}
   \cup UNION {{[op |-> "set", x |-> x, i |-> t, v |-> v] : t \in IF Full(st[x]) THEN Tuples(st[x].dims) ELSE {}, v \in Vals} : x \in L}
\* the meaning
Empty == <<>>
MapOf(e) == CASE e.op = "new" -> Map(e.dims, LAMBDA t : <<>>)
              [] e.op = "load" -> IF Len(e.v) = Prod(st[e.x].dims)
                                  THEN Map(st[e.x].dims, LAMBDA t : <<e.v[Lin(st[e.x].dims, t) + 1]>>) ELSE Empty
              [] e.op = "set" -> [mp[e.x] EXCEPT ![e.i] = <<e.v>>]
              [] e.op \in {"copy", "move", "assign"} -> mp[e.y]
              [] OTHER -> Empty
Init == st = <<>> /\ mp = <<>> /\ path = <<>>
Next == \E e \in Cmds : /\ Pre(st, e)
                        /\ st' = Post(st, e)
                        /\ mp' = IF e.op = "del" THEN Drop(mp, e.x) ELSE IF e.op = "move" THEN Put(Put(mp, e.x, mp[e.y]), e.y, Empty) ELSE Put(mp, e.x, MapOf(e))
                        /\ path' = Append(path, e)
                        /\ (Emit => PrintT(ToJson(path')))
Spec == Init /\ [][Next]_<<st, mp, path>>
View == <<st, mp>>
Refines == \A x \in L : Full(st[x]) => \A t \in Tuples(st[x].dims) : mp[x][t] = st[x].d[Lin(st[x].dims, t) + 1]
OneToOne == \A x \in L : Full(st[x]) => /\ {Lin(st[x].dims, t) : t \in Tuples(st[x].dims)} = 0..(Len(st[x].d)-1)
                                         /\ \A n \in 0..(Len(st[x].d)-1) : Lin(st[x].dims, Tuple(st[x].dims, n)) = n
                                         /\ \A t \in Tuples(st[x].dims) : In(st[x], t) /\ Tuple(st[x].dims, Lin(st[x].dims, t)) = t
Frame == [][\A x \in Names : LET e == path'[Len(path')] IN
              x = e.x \/ (e.op = "move" /\ x = e.y) \/ ((x \in DOMAIN st) = (x \in DOMAIN st') /\ (x \in DOMAIN st => st'[x] = st[x] /\ mp'[x] = mp[x]))]_<<st, mp, path>>
=============================================================================
