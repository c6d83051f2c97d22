------------------------------ MODULE MCMemory ------------------------------
(* The steps of an owner's operations: release the old block, record the new *)
(* size, obtain a block (which may fail), count it.  At rest the counter is  *)
(* the sum of the sizes, and the result of every operation is one that       *)
(* Memory allows.                                                            *)
EXTENDS Memory, Json
CONSTANTS Names, Sizes, Emit
VARIABLES st, used, pend, path
Kinds == {<<"m", 2>>, <<"a", 3>>}
Idle == [op |-> "none"]
Cmds == {[op |-> "new", x |-> x, k |-> q[1], sz |-> q[2], n |-> n, fail |-> f] : x \in Names, q \in Kinds, n \in Sizes, f \in {0, 1}}
   \cup {[op |-> o, x |-> x, y |-> y, fail |-> f] : o \in {"copy", "assign"}, x \in Names, y \in Names, f \in {0, 1}}
   \cup {[op |-> "move", x |-> x, y |-> y, fail |-> 0] : x \in Names, y \in Names}
   \cup {[op |-> "resize", x |-> x, n |-> n, fail |-> f] : x \in Names, n \in Sizes, f \in {0, 1}}
   \cup {[op |-> "load", x |-> x, n |-> n, fail |-> f] : x \in Names, n \in Sizes, f \in {0, 1}}
   \cup {[op |-> "del", x |-> x, fail |-> 0] : x \in Names}
Fits(e) == /\ (e.op = "resize" => st[e.x].k = "m") /\ (e.op = "load" => st[e.x].k = "a")
           /\ (e.op \in {"copy", "move"} => e.x # e.y)
Init == st = <<>> /\ used = 0 /\ pend = Idle /\ path = <<>>
\* a call starts; those that need no new block end at once
Call == /\ pend = Idle /\ \E e \in Cmds :
           /\ Pre(st, e) /\ Fits(e)
           /\ path' = Append(path, e)
           /\ (Emit => PrintT(ToJson(path')))
           /\ IF e.op \in {"move"} THEN st' = Full(st, e) /\ UNCHANGED <<used, pend>>
              ELSE IF e.op = "del" THEN st' = Full(st, e) /\ used' = used - st[e.x].n * st[e.x].sz /\ pend' = pend
              ELSE IF (e.op = "assign" /\ e.x = e.y) \/ (e.op \in {"resize", "load"} /\ Want(st, e) = st[e.x].n) THEN UNCHANGED <<st, used, pend>>
              ELSE /\ pend' = [op |-> e.op, e |-> e, old |-> st, want |-> Want(st, e), got |-> FALSE]
                   /\ IF e.x \in DOMAIN st THEN st' = [st EXCEPT ![e.x].n = 0] /\ used' = used - st[e.x].n * st[e.x].sz
                      ELSE st' = Put(st, e.x, IF "k" \in DOMAIN e THEN Own(e.k, e.sz, 0) ELSE [st[e.y] EXCEPT !.n = 0]) /\ used' = used
\* the block is obtained and counted, or not
Obtain == /\ pend # Idle /\ pend' = Idle /\ path' = path
          /\ LET e == pend.e IN
             \/ pend.want > 0 /\ used' = used + pend.want * st[e.x].sz /\ st' = [st EXCEPT ![e.x].n = pend.want]
             \/ pend.want = 0 /\ UNCHANGED <<st, used>>
             \/ pend.want > 0 /\ e.fail = 1 /\ used' = used /\ st' \in (IF st[e.x].k = "m" THEN {st} ELSE IF e.x \in DOMAIN pend.old THEN {st} ELSE {Drop(st, e.x)})
Next == Call \/ Obtain
Spec == Init /\ [][Next]_<<st, used, pend, path>>
View == <<st, used, pend>>
AtRest == pend = Idle => used = Used(st)
Counted == used >= 0 /\ (DOMAIN st = {} /\ pend = Idle => used = 0)
Allowed == [][pend # Idle => st' \in Post(pend.old, pend.e, 0) \cup (IF pend.e.fail = 1 THEN Post(pend.old, pend.e, 1) ELSE {})]_<<st, used, pend, path>>
=============================================================================
