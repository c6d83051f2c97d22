------------------------------ MODULE Tracker -------------------------------
(* A counter of the used bytes that several threads change.  A call of a     *)
(* thread adds a few amounts to it, each one at some moment between the call *)
(* and its return, or reads it at such a moment.  The configurations that    *)
(* explain what was seen so far are a set of records                         *)
(*   c   the counter                                                         *)
(*   p   for the threads inside a call, what the call still has to do        *)
EXTENDS Num
Put(f, x, v) == [k \in DOMAIN f \cup {x} |-> IF k = x THEN v ELSE f[k]]
Drop(f, x) == [k \in DOMAIN f \ {x} |-> f[k]]
Adds(ds) == [k |-> "adds", d |-> ds]
Reads(v) == [k |-> "read", v |-> v]
Nothing == [k |-> "none"]
DropAt(s, i) == [k \in 1..(Len(s) - 1) |-> IF k < i THEN s[k] ELSE s[k + 1]]
Done(w) == w.k = "none" \/ (w.k = "adds" /\ w.d = <<>>)
\* a read of the present value can as well happen now
Settle(q) == [q EXCEPT !.p = [t \in DOMAIN q.p |-> IF q.p[t].k = "read" /\ q.p[t].v = q.c THEN Nothing ELSE q.p[t]]]
Moves(q) == UNION {IF q.p[t].k = "adds" THEN {Settle([c |-> q.c + q.p[t].d[i], p |-> Put(q.p, t, Adds(DropAt(q.p[t].d, i)))]) : i \in 1..Len(q.p[t].d)} ELSE {} : t \in DOMAIN q.p}
RECURSIVE Reach(_, _)
Reach(S, F) == IF F = {} THEN S ELSE LET N == TLCEval((UNION {Moves(q) : q \in F}) \ S) IN Reach(TLCEval(S \cup N), N)
Start == {[c |-> 0, p |-> <<>>]}
\* works: the alternatives of what the call does
Called(S, t, works) == {Settle([c |-> q.c, p |-> Put(q.p, t, w)]) : q \in S, w \in works}
Returned(S, t) == {[c |-> q.c, p |-> Drop(q.p, t)] : q \in {r \in Reach(S, S) : Done(r.p[t])}}

(* The commands of a thread, with own[o] the bytes of its objects.           *)
Width(k) == CASE k \in {"m4", "a4", "v4"} -> 4 [] k \in {"m8", "a8"} -> 8 [] OTHER -> 1
Has(own, o) == IF o \in DOMAIN own THEN own[o] ELSE [k |-> "", b |-> 0]
\* v: what it returned (-1: an allocation failed and the object was not made)
Works(own, e, v) ==
    CASE e.op = "read" -> {Reads(v)}
      [] e.op = "new" -> {Adds(IF v = -1 THEN <<>> ELSE <<e.n * Width(e.k)>>)}
      [] e.op = "copy" -> {Adds(IF v = -1 THEN <<>> ELSE <<own[e.y].b>>)}
      [] e.op = "del" -> {Adds(<<-Has(own, e.o).b>>)}
      [] e.op = "resize" -> LET n == e.n * Width(own[e.o].k) IN {Adds(<<-own[e.o].b, n>>)} \cup (IF n = own[e.o].b THEN {Nothing} ELSE {})
      [] e.op = "assign" -> IF e.o = e.y THEN {Nothing} ELSE {Adds(<<-own[e.o].b, own[e.y].b>>)} \cup (IF own[e.o].b = own[e.y].b THEN {Nothing} ELSE {})
Owned(own, e, v) ==
    CASE e.op = "new" -> IF v = -1 THEN own ELSE Put(own, e.o, [k |-> e.k, b |-> e.n * Width(e.k)])
      [] e.op = "copy" -> IF v = -1 THEN own ELSE Put(own, e.o, own[e.y])
      [] e.op = "del" -> Drop(own, e.o)
      [] e.op = "resize" -> Put(own, e.o, [k |-> own[e.o].k, b |-> e.n * Width(own[e.o].k)])
      [] e.op = "assign" -> Put(own, e.o, own[e.y])
      [] OTHER -> own
Total(own) == FoldSet(LAMBDA t, acc : acc + FoldSet(LAMBDA o, a : a + own[t][o].b, 0, DOMAIN own[t]), 0, DOMAIN own)

(* A record of a run: <<1, t, i, 0>> for a call, <<2, t, i, v>> for a return *)
Cmd(scripts, t, i) == IF i = -1 THEN [op |-> "read"] ELSE scripts[t + 1][i + 1]
ValueOf(ev, n) == LET j == CHOOSE j \in (n + 1)..Len(ev) : ev[j][2] = ev[n][2] /\ \A k \in (n + 1)..(j - 1) : ev[k][2] # ev[n][2] IN ev[j][4]
OwnOf(s, t) == IF t \in DOMAIN s.own THEN s.own[t] ELSE <<>>
Step(scripts, ev, s, n) ==
    LET t == ev[n][2] c == Cmd(scripts, t, ev[n][3]) o == OwnOf(s, t) IN
    IF ev[n][1] = 1 THEN [S |-> Called(s.S, t, Works(o, c, ValueOf(ev, n))), own |-> s.own]
    ELSE [S |-> Returned(s.S, t), own |-> Put(s.own, t, Owned(o, c, ev[n][4]))]
RECURSIVE Play(_, _, _, _)
Play(scripts, ev, s, n) == IF n > Len(ev) \/ s.S = {} THEN s ELSE Play(scripts, ev, TLCEval(Step(scripts, ev, s, n)), n + 1)
\* the run is explained, and ends with the counter at end
Explained(scripts, ev, end) ==
    LET s == TLCEval(Play(scripts, ev, [S |-> Start, own |-> <<>>], 1)) IN (\E q \in s.S : q.c = end) /\ end = Total(s.own)
=============================================================================
