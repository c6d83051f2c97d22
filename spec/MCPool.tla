------------------------------- MODULE MCPool -------------------------------
(* Exhaustive exploration of MatrixStore for a few names, shapes and values. *)
(* With Emit, every transition is printed as the command script that leads   *)
(* to it; the scripts are replayed on the implementation.                    *)
EXTENDS MatrixStore, Json
CONSTANTS Slots, MaxR, MaxC, Vals, Emit, Extra
VARIABLES st, path
TY == "i"
SC == 1
Fits(s) == \A k \in DOMAIN s : s[k].r <= MaxR /\ s[k].c <= MaxC /\ s[k].r * s[k].c <= MaxR * MaxC
                              /\ \A q \in 1..Len(s[k].d) : s[k].d[q] \in Vals
Pre1(e) == Pre(TY, st, e)

C1(op, x) == [op |-> op, x |-> x]
Cxy(op, x, y) == [op |-> op, x |-> x, y |-> y]
Cxyp(op, x, y, p) == [op |-> op, x |-> x, y |-> y, p |-> p]
Shapes == {<<r, c>> : r \in 1..MaxR, c \in 1..MaxC}
L == DOMAIN st
Dead == Slots \ L

\* every operation instance over the live and dead names, whether or not it is within its precondition
Cmds ==
      {C1("new0", x) : x \in Dead}
    \cup {[op |-> "newrcv", x |-> x, p |-> s, v |-> v] : x \in Dead, s \in Shapes, v \in Vals}
    \cup {Cxy(o, x, y) : o \in {"copy", "move"}, x \in Dead, y \in L}
    \cup {Cxy(o, x, y) : o \in {"assign", "massign", "assignval", "swap", "eq"}, x \in L, y \in L}
    \cup {[op |-> "assigntmp", x |-> x, p |-> s, v |-> v] : x \in L, s \in Shapes, v \in Vals}
    \cup {[op |-> "setall", x |-> x, v |-> v] : x \in {q \in L : NonEmpty(st[q])}, v \in Vals}
    \cup {C1("del", x) : x \in L}
    \cup {[op |-> "set", x |-> x, p |-> <<k>>, v |-> v] : x \in L, k \in 0..(MaxR*MaxC-1), v \in Vals}
    \cup {[op |-> "set2", x |-> x, p |-> <<i, j>>, v |-> v] : x \in L, i \in 0..(MaxR-1), j \in 0..(MaxC-1), v \in Vals}
    \cup (IF ~Extra THEN {} ELSE
          {Cxyp(o, x, y, <<i>>) : o \in {"row", "col", "left", "right"}, x \in Slots, y \in L, i \in 0..Max2(MaxR, MaxC)}
    \cup  {Cxyp(o, x, y, <<i, j>>) : o \in {"mid", "shrink", "reshape"}, x \in Slots, y \in L, i \in 0..(MaxR*MaxC), j \in 0..(MaxR*MaxC)}
    \cup  {Cxy(o, x, y) : o \in {"transpose", "fliplr", "flipud"}, x \in Slots, y \in L}
    \cup  {Cxyp(o, x, y, <<i>>) : o \in {"setrow", "setcol"}, x \in L, y \in L, i \in 0..Max2(MaxR, MaxC)}
    \cup  {Cxyp(o, x, x, <<i, j>>) : o \in {"swaprows", "swapcols"}, x \in L, i \in 0..(MaxR-1), j \in 0..(MaxC-1)})

Init == st = Init0 /\ path = <<>>
Do(e) == /\ Pre1(e) /\ ~Open(TY, e, st)
         /\ \E s2 \in Post(TY, SC, st, e) :
              /\ Fits(s2)
              /\ st' = s2
              /\ path' = Append(path, e)
              /\ (Emit => PrintT(ToJson(path')))
Next == \E e \in Cmds : Do(e)
View == st
Spec == Init /\ [][Next]_<<st, path>>

TypeOK == \A k \in DOMAIN st : /\ Len(st[k].d) = st[k].r * st[k].c
                               /\ (st[k].r = 0) = (st[k].c = 0)
\* an operation changes only the matrices it names as targets
Targets(e) == {e.x} \cup (IF e.op \in {"move", "massign", "swap"} THEN {e.y} ELSE {})
Frame == [][\A k \in Slots : k \in Targets(path'[Len(path')]) \/
              ((k \in DOMAIN st) = (k \in DOMAIN st') /\ (k \in DOMAIN st => st'[k] = st[k]))]_<<st, path>>
\* a copy equals its source and the source keeps its value
CopyLaw == [][LET e == path'[Len(path')] IN (e.op \in {"copy", "assign", "assignval"} => st'[e.x] = st[e.y] /\ (e.x # e.y => st'[e.y] = st[e.y]))]_<<st, path>>
\* flipping, transposing and swapping twice is the identity; slices fit together
Laws == \A k \in DOMAIN st : LET m == st[k] IN NonEmpty(m) =>
          /\ Transpose(Transpose(m)) = m
          /\ FlipLR(FlipLR(m)) = m /\ FlipUD(FlipUD(m)) = m
          /\ \A w \in 1..(PartLen(m)-1) : (IF IsVec(m) /\ m.c = 1 THEN VCat(Left(m,w), Right(m, PartLen(m)-w)) ELSE HCat(Left(m,w), Right(m, PartLen(m)-w))) = m
          /\ \A i \in 0..(m.r-1), j \in 0..(m.r-1) : SwapRows(SwapRows(m,i,j),i,j) = m
          /\ \A i \in 0..(m.c-1), j \in 0..(m.c-1) : SwapCols(SwapCols(m,i,j),i,j) = m
          /\ \A i \in 0..(m.r-1) : SetRow(m, i, Row(m, i)) = m
          /\ \A j \in 0..(m.c-1) : SetCol(m, j, Col(m, j)) = m
          /\ \A r \in 1..Size(m) : (Size(m) % r = 0) => Reshape(Reshape(m, r, Size(m) \div r), m.r, m.c) = m
=============================================================================
