------------------------------ MODULE MCGuard -------------------------------
(* Every call on and around the border of the preconditions: of the          *)
(* functions, of the matrices and of the arrays.                             *)
EXTENDS Guard, MatrixStore, Json
CONSTANTS Top, Emit
A2 == INSTANCE ArrayStore
VARIABLES part, cmd
Shapes == {<<0, 0>>} \cup ((1..Top) \X (1..Top))
Sh(op, s) == [op |-> op, r |-> s[1], c |-> s[2]]
Sizes2 == {<<r, c>> : r \in 1..9, c \in {1, 2, 3}} \cup {<<1, c>> : c \in 1..9} \cup {<<16, 1>>, <<1, 16>>, <<17, 1>>, <<32, 2>>, <<31, 2>>, <<2, 32>>, <<1, 100>>}
Calls == {Sh(o, s) : o \in {"find", "sort", "sort_indices"}, s \in Shapes}
    \cup {Sh(o, s) @@ [n |-> n] : o \in {"select_least", "select_most"}, s \in Shapes, n \in 0..(Top + 2)}
    \cup {Sh("select_limited", s) @@ [n |-> n, k |-> k, from |-> f] : s \in Shapes, n \in 0..4, k \in 0..4, f \in 0..2}
    \cup {Sh("dijkstra", s) @@ [n |-> n] : s \in Shapes, n \in 0..(Top + 1)}
    \cup {Sh("conv", s) @@ [r2 |-> q[1], c2 |-> q[2]] : s \in Shapes, q \in Shapes}
    \cup {Sh("convmtx", s) @@ [n |-> n] : s \in Shapes, n \in 0..4}
    \cup {Sh(o, s) @@ [n |-> n] : o \in {"lu", "lup"}, s \in Shapes, n \in 0..2}
    \cup {Sh("radix2", s) : s \in Shapes \cup Sizes2}
    \cup {[op |-> "ccode", n |-> n, k |-> k, m |-> m] : n \in 0..3, k \in 0..3, m \in {0, 1, 2, 5, 30, 31, 32, 33, 64, 1000000}}
    \cup {[op |-> "setgen", n |-> n, k |-> k, m |-> 2] : n \in 0..4, k \in {0, 1, 2, 3, 4, 5, 1000000}}
    \cup {[op |-> "rrc", n |-> n] : n \in -4..9}
\* ---- matrices
Huge == {2000000000, 1999999999, 1999999998}
P == 0..(Top + 1) \cup Huge
Q == 0..(Top * Top + 1) \cup Huge
R1(op, p) == [op |-> op, y |-> 0, p |-> p]
V1(op, p) == [op |-> op, x |-> 3, y |-> 0, p |-> p]
Elem(a) == {R1(o, <<k>>) : o \in {"get", "at", "mat"}, k \in Q} \cup {R1(o, <<i, j>>) : o \in {"get2", "at2", "mat2"}, i \in P, j \in P}
      \cup {[op |-> o, x |-> 0, p |-> <<k>>, v |-> 7] : o \in {"set", "addto"}, k \in Q} \cup {[op |-> "set2", x |-> 0, p |-> <<i, j>>, v |-> 7] : i \in P, j \in P}
Cut(a) == {R1(o, <<i>>) : o \in {"rowvec", "colvec"}, i \in P} \cup {V1(o, <<i>>) : o \in {"row", "col"}, i \in P}
     \cup {V1(o, <<w>>) : o \in {"left", "right"}, w \in Q} \cup {V1(o, <<b, e>>) : o \in {"mid", "shrink"}, b \in P, e \in P}
     \cup {V1("reshape", <<i, j>>) : i \in 0..(Top * Top + 1), j \in 0..(Top * Top + 1)}
     \cup {[op |-> o, x |-> 0, p |-> <<i, j>>] : o \in {"swaprows", "swapcols"}, i \in P, j \in P}
     \cup {[op |-> o, x |-> 0, p |-> <<i, j>>] : o \in {"resize", "assigntmp"}, i \in 0..2, j \in 0..2}
     \cup {[op |-> o, x |-> 3, p |-> <<i, j>>] : o \in {"newrc", "newrcv"}, i \in 0..2, j \in 0..2}
     \cup {[op |-> "eye", x |-> 3, p |-> <<i>>] : i \in 0..2}
     \cup {[op |-> o, x |-> 3, y |-> 0] : o \in {"transpose", "fliplr", "flipud", "hermitian"}}
     \cup {[op |-> o, x |-> 3, y |-> 0, v |-> 3] : o \in {"adds", "sadd", "subs", "ssub", "muls", "smul", "divs"}}
Two(a, b) == {[op |-> o, x |-> 3, y |-> 0, z |-> 1] : o \in {"add", "sub", "mul", "div", "matmul", "kron", "concat"}}
     \cup {[op |-> o, x |-> 0, y |-> 1] : o \in {"pluseq", "minuseq", "eq", "assign"}}
     \cup {[op |-> o, x |-> 0, y |-> 1, p |-> <<i>>] : o \in {"setrow", "setcol"}, i \in P}
Val2(e) == IF e.op \in {"assigntmp", "newrcv"} THEN e @@ [v |-> 5] ELSE e
Sh2 == {<<0, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, Top>>, <<Top, 1>>, <<2, 2>>, <<2, Top>>, <<Top, 2>>, <<Top, Top>>}
Mx(s, d) == MkLin(s[1], s[2], LAMBDA k : (k % 5) + d)
Make(x, s, d) == IF s[1] = 0 THEN [op |-> "new0", x |-> x] ELSE [op |-> "load", x |-> x, mm |-> Mx(s, d)]
Store(a, b) == (0 :> (IF a[1] = 0 THEN EmptyM ELSE Mx(a, 1))) @@ (1 :> (IF b[1] = 0 THEN EmptyM ELSE Mx(b, 2)))
\* what a script of a matrix expects: "in" the preconditions, "out" of them, or "open"
Kind(st, e) == LET t == IF e.op = "hermitian" THEN "ci" ELSE "i" IN IF Open(t, e, st) THEN "open" ELSE IF Pre(t, st, e) THEN "in" ELSE "out"
\* ---- arrays
DimsL == UNION {[1..n -> 1..3] : n \in 1..3}
Tuples(d) == [1..1 -> 0..(A2!Prod(d) + 1)] \cup UNION {[1..n -> 0..3] : n \in 2..4}
ArrCmds(d) == {[op |-> o, x |-> "a", i |-> t] : o \in {"set", "get"}, t \in Tuples(d)}
\* ----
Init == part \in {<<"call">>} \cup ({"one"} \X Shapes) \cup ({"two"} \X Sh2 \X Sh2) \cup ({"arr"} \X DimsL) /\ cmd = <<>>
Cmds == IF part[1] = "call" THEN {<<e>> : e \in Calls}
        ELSE CASE part[1] = "one" -> {<<Make(0, part[2], 1), Val2(e)>> : e \in Elem(part[2]) \cup Cut(part[2])}
               [] part[1] = "two" -> {<<Make(0, part[2], 1), Make(1, part[3], 2), Val2(e)>> : e \in Two(part[2], part[3])}
               [] part[1] = "arr" -> {<<[op |-> "new", x |-> "a", dims |-> part[2]], [op |-> "load", x |-> "a", v |-> [k \in 1..A2!Prod(part[2]) |-> k]], e>> : e \in ArrCmds(part[2])}
Expect(c) == IF part[1] = "call" THEN Outcomes(c[1])
             ELSE CASE part[1] = "one" -> Kind(Store(part[2], <<0, 0>>), c[2])
                    [] part[1] = "two" -> Kind(Store(part[2], part[3]), c[3])
                    [] part[1] = "arr" -> IF A2!In([dims |-> part[2], d |-> c[2].v], c[3].i) THEN "in" ELSE "out"
Next == cmd = <<>> /\ cmd' \in Cmds /\ part' = part
        /\ (Emit => PrintT(ToJson([part |-> part[1], kind |-> IF part[1] = "call" THEN "" ELSE Expect(cmd'), cmds |-> cmd'])))
Spec == Init /\ [][Next]_<<part, cmd>>
\* where the precondition holds, the result is defined, with the shape and the elements that it must have
Defined == (cmd # <<>> /\ part[1] # "call") =>
           IF part[1] = "arr" THEN (A2!In([dims |-> part[2], d |-> cmd[2].v], cmd[3].i) => A2!Pos([dims |-> part[2], d |-> cmd[2].v], cmd[3].i) \in 1..Len(cmd[2].v))
           ELSE LET e == cmd[Len(cmd)] st == Store(part[2], IF part[1] = "two" THEN part[3] ELSE <<0, 0>>) IN
                (e.op # "hermitian" /\ Kind(st, e) = "in") => \A s2 \in Post("i", 1, st, e) : \A x \in DOMAIN s2 : Len(s2[x].d) = s2[x].r * s2[x].c
Some == (cmd # <<>> /\ part[1] = "call") => Outcomes(cmd[1]) # {}
=============================================================================
