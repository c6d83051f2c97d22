------------------------------ MODULE MCSlice ------------------------------
(* Every slicing, indexing and rearranging call on a matrix of every shape   *)
(* up to MaxR x MaxC with distinct elements: the laws that tie them together *)
(* are checked, and each call is printed as a script for the implementation. *)
EXTENDS MatrixStore, Json
CONSTANTS MaxR, MaxC, Emit
VARIABLES st, path
TY == "i"
SC == 1
Load(x, m) == [op |-> "load", x |-> x, mm |-> m]
A(r,c) == MkLin(r, c, LAMBDA k : k + 1)
B(r,c) == MkLin(1, c, LAMBDA k : 101 + k)
C(r,c) == MkLin(r, 1, LAMBDA k : 201 + k)
Start1(r,c) == (0 :> A(r,c)) @@ (1 :> B(r,c)) @@ (2 :> C(r,c))
M == st[0]
I == 0..(M.r - 1)
Jx == 0..(M.c - 1)
K == 0..(Size(M) - 1)
W == 1..PartLen(M)
R1(op, p) == [op |-> op, y |-> 0, p |-> p]
V1(op, p) == [op |-> op, x |-> 3, y |-> 0, p |-> p]
Cmds ==   {R1(o, <<k>>) : o \in {"get", "at", "mat"}, k \in K}
     \cup {R1(o, <<i, j>>) : o \in {"get2", "at2", "mat2"}, i \in I, j \in Jx}
     \cup {[op |-> "set", x |-> 0, p |-> <<k>>, v |-> -7] : k \in K}
     \cup {[op |-> "set2", x |-> 0, p |-> <<i, j>>, v |-> -7] : i \in I, j \in Jx}
     \cup {R1("rowvec", <<i>>) : i \in I} \cup {R1("colvec", <<j>>) : j \in Jx}
     \cup {V1("row", <<i>>) : i \in I} \cup {V1("col", <<j>>) : j \in Jx}
     \cup {V1(o, <<w>>) : o \in {"left", "right"}, w \in W}
     \cup {V1("mid", <<b, e>>) : b \in W, e \in W} \cup {V1("mid", <<0, e>>) : e \in W}
     \cup {V1("shrink", <<i, j>>) : i \in I, j \in Jx}
     \cup {V1("reshape", <<r, c>>) : r \in 1..Size(M), c \in 1..Size(M)}
     \cup {[op |-> "setrow", x |-> 0, y |-> 1, p |-> <<i>>] : i \in I}
     \cup {[op |-> "setcol", x |-> 0, y |-> 2, p |-> <<j>>] : j \in Jx}
     \cup (IF M.r = M.c THEN {[op |-> "setrow", x |-> 0, y |-> 2, p |-> <<i>>] : i \in I} \cup {[op |-> "setcol", x |-> 0, y |-> 1, p |-> <<j>>] : j \in Jx} ELSE {})
     \cup {[op |-> "swaprows", x |-> 0, p |-> <<i, j>>] : i \in I, j \in I}
     \cup {[op |-> "swapcols", x |-> 0, p |-> <<i, j>>] : i \in Jx, j \in Jx}
     \cup {[op |-> o, x |-> 3, y |-> 0] : o \in {"transpose", "fliplr", "flipud"}}
Init == \E r \in 1..MaxR, c \in 1..MaxC :
          st = Start1(r,c) /\ path = <<Load(0, A(r,c)), Load(1, B(r,c)), Load(2, C(r,c))>>
Next == \E e \in Cmds : /\ Len(path) = 3
                        /\ Pre(TY, st, e)
                        /\ st' \in Post(TY, SC, st, e)
                        /\ path' = Append(path, e)
                        /\ (Emit => PrintT(ToJson(path')))
Spec == Init /\ [][Next]_<<st, path>>
\* sources other than the target keep their values
Frame == [][LET e == path'[4] IN \A k \in {0, 1, 2} : (("x" \in DOMAIN e) /\ e.x = k) \/ st'[k] = st[k]]_<<st, path>>
\* writing then reading, in either addressing, and the pieces of a matrix make it up again
Laws == Len(path) = 3 =>
        /\ \A i \in I, j \in Jx : At(M,i,j) = Lin(M, i + j*M.r) /\ Lin(Row(M,i), j) = At(M,i,j) /\ Lin(Col(M,j), i) = At(M,i,j)
        /\ \A i \in I, j \in Jx : LET n == SetLin(M, i + j*M.r, -7) IN
              At(n,i,j) = -7 /\ \A a \in I, b \in Jx : (a # i \/ b # j) => At(n,a,b) = At(M,a,b)
        /\ \A b \in W, e \in W : (b < e /\ e < PartLen(M)) => Mid(M,b,e) = Left(Right(M, PartLen(M)-b), e-b+1)
        /\ (M.r > 1 /\ M.c > 1) => \A i \in I, j \in Jx : Shrink(Transpose(M), j, i) = Transpose(Shrink(M, i, j))
        /\ \A i \in I, j \in I : \A k \in I : Row(SwapRows(M,i,j), k) = Row(M, IF k = i THEN j ELSE IF k = j THEN i ELSE k)
=============================================================================
