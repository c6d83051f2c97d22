---------------------------- MODULE MatrixStore ----------------------------
(* A store of named matrices of one element type and the operations of the   *)
(* library on it.  A store is a function from the live names to matrices; an *)
(* operation is a record e with the fields                                   *)
(*   op            its name                                                  *)
(*   x, y, z       the name it creates or changes, and its operands          *)
(*   p             integer arguments, v a scalar argument                    *)
(* Pre says when it may be called, Post gives the stores that may result,    *)
(* Res constrains what it returns.                                           *)
(* ty is the element type, sc the scale of the numbers.                      *)
EXTENDS Text

AnyE(ty) == IF IsCx(ty) THEN <<ANY, ANY>> ELSE ANY
IsAny(ty, a) == IF IsCx(ty) THEN a[1] = ANY ELSE a = ANY
HasAny(ty, m) == \E k \in 1..Len(m.d) : IsAny(ty, m.d[k])

\* arithmetic on scaled numbers
SMul(ty,sc,a,b) == IF sc = 1 THEN EMul(ty,a,b)
                   ELSE IF IsCx(ty) THEN LET q == EMul(ty,a,b) IN <<q[1] \div sc, q[2] \div sc>> ELSE (a * b) \div sc
SDiv(ty,sc,a,b) ==
    IF IsCx(ty) THEN LET q == EMul(ty, a, EConj(b)) n == b[1]*b[1] + b[2]*b[2] IN <<(q[1] * sc) \div n, (q[2] * sc) \div n>>
    ELSE IF ty \in {"i","b","u","n","l"} THEN EDivI(ty,a,b)
    ELSE (a * sc) \div b
SMatMul(ty,sc,m,n) == Mk(m.r, n.c, LAMBDA i,j : ESum(ty, LAMBDA k : SMul(ty, sc, At(m,i,k), At(n,k,j)), m.c))
One(ty, sc) == IF IsCx(ty) THEN <<sc, 0>> ELSE sc
SEye(ty,sc,n) == Mk(n, n, LAMBDA i,j : IF i = j THEN One(ty,sc) ELSE Zero(ty))

Live(st, k) == k \in DOMAIN st
With(st, x, m) == [k \in (DOMAIN st) \cup {x} |-> IF k = x THEN m ELSE st[k]]
Without(st, x) == [k \in (DOMAIN st) \ {x} |-> st[k]]
Init0 == [k \in {} |-> EmptyM]

NonEmpty(m) == Size(m) > 0
Cells(r,c) == r > 0 /\ c > 0

Creators  == {"new0", "newrc", "newrcv", "copy", "move", "newtext"}
Setters   == {"assign", "massign", "assigntmp", "assignval", "swap", "viavec", "assigntext", "resize", "del",
              "set", "set2", "addto", "setall", "setrow", "setcol", "swaprows", "swapcols", "pluseq", "minuseq"}
Readers   == {"get", "get2", "at", "at2", "mat", "mat2", "rowvec", "colvec", "eq", "det"}
Unary     == {"row", "col", "left", "right", "mid", "shrink", "reshape", "adds", "subs", "muls", "divs", "sadd", "ssub", "smul",
              "transpose", "hermitian", "fliplr", "flipud"}
Binary    == {"add", "sub", "mul", "div", "matmul", "concat", "kron"}
Makers    == {"load", "eye"}

\* the value of an operation that computes a matrix from its operands a, b
Val(ty, sc, e, a, b) ==
    CASE e.op = "row"   -> Row(a, e.p[1])
      [] e.op = "col"   -> Col(a, e.p[1])
      [] e.op = "left"  -> Left(a, e.p[1])
      [] e.op = "right" -> Right(a, e.p[1])
      [] e.op = "mid"   -> Mid(a, e.p[1], e.p[2])
      [] e.op = "shrink" -> Shrink(a, e.p[1], e.p[2])
      [] e.op = "reshape" -> Reshape(a, e.p[1], e.p[2])
      [] e.op = "transpose" -> Transpose(a)
      [] e.op = "hermitian" -> Hermitian(a)
      [] e.op = "fliplr" -> FlipLR(a)
      [] e.op = "flipud" -> FlipUD(a)
      [] e.op \in {"adds", "sadd"} -> Map1(a, LAMBDA u : EAdd(ty, u, e.v))
      [] e.op = "subs" -> Map1(a, LAMBDA u : ESub(ty, u, e.v))
      [] e.op = "ssub" -> Map1(a, LAMBDA u : ESub(ty, e.v, u))
      [] e.op \in {"muls", "smul"} -> Map1(a, LAMBDA u : SMul(ty, sc, u, e.v))
      [] e.op = "divs" -> Map1(a, LAMBDA u : SDiv(ty, sc, u, e.v))
      [] e.op = "add" -> MZip(a, b, LAMBDA u,w : EAdd(ty, u, w))
      [] e.op = "sub" -> MZip(a, b, LAMBDA u,w : ESub(ty, u, w))
      [] e.op = "mul" -> MZip(a, b, LAMBDA u,w : SMul(ty, sc, u, w))
      [] e.op = "div" -> MZip(a, b, LAMBDA u,w : SDiv(ty, sc, u, w))
      [] e.op = "matmul" -> SMatMul(ty, sc, a, b)
      [] e.op = "concat" -> Concat(a, b)
      [] e.op = "kron" -> Mk(a.r*b.r, a.c*b.c, LAMBDA i,j : SMul(ty, sc, At(a, i \div b.r, j \div b.c), At(b, i % b.r, j % b.c)))
      [] e.op = "eye" -> SEye(ty, sc, e.p[1])
      [] e.op = "load" -> e.mm

PreVal(ty, e, a, b) ==
    CASE e.op = "row"   -> e.p[1] < a.r
      [] e.op = "col"   -> e.p[1] < a.c
      [] e.op \in {"left", "right"} -> NonEmpty(a) /\ e.p[1] > 0 /\ e.p[1] <= PartLen(a)
      [] e.op = "mid"   -> NonEmpty(a) /\ e.p[1] < e.p[2] /\ e.p[2] < PartLen(a)
      [] e.op = "shrink" -> a.r > 1 /\ a.c > 1 /\ e.p[1] < a.r /\ e.p[2] < a.c
      [] e.op = "reshape" -> NonEmpty(a) /\ e.p[1] * e.p[2] = Size(a)
      [] e.op \in {"transpose", "hermitian", "fliplr", "flipud", "adds", "sadd", "subs", "ssub", "muls", "smul", "divs"} -> NonEmpty(a)
      [] e.op \in {"add", "sub", "mul", "div"} -> NonEmpty(a) /\ SameShape(a, b)
      [] e.op = "matmul" -> NonEmpty(a) /\ NonEmpty(b) /\ a.c = b.r
      [] e.op = "concat" -> NonEmpty(a) /\ NonEmpty(b) /\ (a.c = b.c \/ a.r = b.r)
      [] e.op = "kron" -> NonEmpty(a) /\ NonEmpty(b)
      [] e.op = "eye" -> e.p[1] > 0
      [] e.op = "load" -> TRUE
\* calls whose outcome the documentation leaves open
Open(ty, e, st) ==
    CASE e.op \in {"left", "right"} -> e.p[1] = 0
      [] e.op = "mid" -> e.p[1] = e.p[2]
      [] e.op = "concat" -> ~(NonEmpty(st[e.y]) /\ NonEmpty(st[e.z]) /\ (st[e.y].c = st[e.z].c \/ st[e.y].r = st[e.z].r))
      [] e.op \in {"newtext", "assigntext"} -> ~WellFormed(RowsOf(e.txt, 0))
      [] e.op \in {"setrow", "setcol"} -> \/ Size(st[e.y]) > (IF e.op = "setrow" THEN st[e.x].c ELSE st[e.x].r)
      [] e.op = "setall" -> ~NonEmpty(st[e.x])
      [] e.op = "rowvec" -> st[e.y].c = 0
      [] e.op = "colvec" -> st[e.y].r = 0
      [] e.op = "det" -> ~(NonEmpty(st[e.y]) /\ IsSquare(st[e.y]))
      [] e.op = "reshape" -> e.p[1] * e.p[2] = 0
      [] OTHER -> FALSE

IsLin(m, k) == k < Size(m)
IsRC(m, i, j) == i < m.r /\ j < m.c

Pre(ty, st, e) ==
    CASE e.op \in {"new0", "copy", "move", "assign", "massign", "assignval", "swap", "viavec", "del", "eq"} -> TRUE
      [] e.op \in {"newrc", "newrcv", "assigntmp", "resize"} -> Cells(e.p[1], e.p[2])
      [] e.op \in {"newtext", "assigntext"} -> WellFormed(RowsOf(e.txt, 0))
      [] e.op \in {"set", "addto"} -> IsLin(st[e.x], e.p[1])
      [] e.op = "set2" -> IsRC(st[e.x], e.p[1], e.p[2])
      [] e.op = "setall" -> NonEmpty(st[e.x])
      [] e.op \in {"get", "at", "mat"} -> IsLin(st[e.y], e.p[1])
      [] e.op \in {"get2", "at2", "mat2"} -> IsRC(st[e.y], e.p[1], e.p[2])
      [] e.op = "rowvec" -> e.p[1] < st[e.y].r
      [] e.op = "colvec" -> e.p[1] < st[e.y].c
      [] e.op = "det" -> NonEmpty(st[e.y]) /\ IsSquare(st[e.y])
      [] e.op = "setrow" -> e.p[1] < st[e.x].r /\ Size(st[e.y]) >= st[e.x].c
      [] e.op = "setcol" -> e.p[1] < st[e.x].c /\ Size(st[e.y]) >= st[e.x].r
      [] e.op = "swaprows" -> e.p[1] < st[e.x].r /\ e.p[2] < st[e.x].r
      [] e.op = "swapcols" -> e.p[1] < st[e.x].c /\ e.p[2] < st[e.x].c
      [] e.op \in {"pluseq", "minuseq"} -> NonEmpty(st[e.x]) /\ SameShape(st[e.x], st[e.y])
      [] e.op \in Unary -> PreVal(ty, e, st[e.y], EmptyM)
      [] e.op \in Binary -> PreVal(ty, e, st[e.y], st[e.z])
      [] e.op \in Makers -> PreVal(ty, e, EmptyM, EmptyM)

Lin2(m, i, j) == i + j * m.r
SetAt(st, x, k, v) == [st EXCEPT ![x] = SetLin(@, k, v)]

\* The single resulting store, except for a moved-from operand of an assignment,
\* which may either keep its value or become empty.
Post(ty, sc, st, e) ==
    CASE e.op = "new0" -> {With(st, e.x, EmptyM)}
      [] e.op = "newrc" -> {With(st, e.x, Fill(e.p[1], e.p[2], AnyE(ty)))}
      [] e.op \in {"newrcv", "assigntmp"} -> {With(st, e.x, Fill(e.p[1], e.p[2], e.v))}
      [] e.op \in {"copy", "assign", "assignval"} -> {With(st, e.x, st[e.y])}
      [] e.op = "viavec" -> {With(st, e.x, st[e.y])}
      [] e.op = "move" -> {With(With(st, e.x, st[e.y]), e.y, EmptyM)}
      [] e.op = "massign" -> {With(st, e.x, st[e.y])} \cup (IF e.x = e.y THEN {} ELSE {With(With(st, e.x, st[e.y]), e.y, EmptyM)})
      [] e.op = "swap" -> {With(With(st, e.x, st[e.y]), e.y, st[e.x])}
      [] e.op = "del" -> {Without(st, e.x)}
      [] e.op = "resize" -> {With(st, e.x, Fill(e.p[1], e.p[2], AnyE(ty)))}
      [] e.op \in {"newtext", "assigntext"} -> {With(st, e.x, Parse(e.txt, IF sc = 1 THEN 0 ELSE 3))}
      [] e.op = "set" -> {SetAt(st, e.x, e.p[1], e.v)}
      [] e.op = "set2" -> {SetAt(st, e.x, Lin2(st[e.x], e.p[1], e.p[2]), e.v)}
      [] e.op = "addto" -> {SetAt(st, e.x, e.p[1], EAdd(ty, Lin(st[e.x], e.p[1]), e.v))}
      [] e.op = "setall" -> {With(st, e.x, Fill(st[e.x].r, st[e.x].c, e.v))}
      [] e.op = "setrow" -> {With(st, e.x, SetRow(st[e.x], e.p[1], st[e.y]))}
      [] e.op = "setcol" -> {With(st, e.x, SetCol(st[e.x], e.p[1], st[e.y]))}
      [] e.op = "swaprows" -> {With(st, e.x, SwapRows(st[e.x], e.p[1], e.p[2]))}
      [] e.op = "swapcols" -> {With(st, e.x, SwapCols(st[e.x], e.p[1], e.p[2]))}
      [] e.op = "pluseq" -> {With(st, e.x, MZip(st[e.x], st[e.y], LAMBDA u,w : EAdd(ty, u, w)))}
      [] e.op = "minuseq" -> {With(st, e.x, MZip(st[e.x], st[e.y], LAMBDA u,w : ESub(ty, u, w)))}
      [] e.op \in Unary -> {With(st, e.x, Val(ty, sc, e, st[e.y], EmptyM))}
      [] e.op \in Binary -> {With(st, e.x, Val(ty, sc, e, st[e.y], st[e.z]))}
      [] e.op \in Makers -> {With(st, e.x, Val(ty, sc, e, EmptyM, EmptyM))}
      [] e.op \in Readers -> {st}

\* what the implementation may show for the model value a
SameE(ty, a, b) == IsAny(ty, a) \/ a = b
SameD(ty, d, o) == Len(d) = Len(o) /\ \A k \in 1..Len(d) : SameE(ty, d[k], o[k])

Res(ty, sc, st, e, post) ==
    CASE e.op \in {"get", "at", "mat"} -> SameE(ty, Lin(st[e.y], e.p[1]), e.res_v)
      [] e.op \in {"get2", "at2", "mat2"} -> SameE(ty, At(st[e.y], e.p[1], e.p[2]), e.res_v)
      [] e.op = "rowvec" -> SameD(ty, Row(st[e.y], e.p[1]).d, e.res_v)
      [] e.op = "colvec" -> SameD(ty, Col(st[e.y], e.p[1]).d, e.res_v)
      [] e.op = "det" -> e.res_v = Det(st[e.y])
      [] e.op = "eq" -> IF ~SameShape(st[e.x], st[e.y]) THEN e.res_v = 2
                        ELSE IF HasAny(ty, st[e.x]) \/ HasAny(ty, st[e.y]) THEN e.res_v \in {1, 2}
                        ELSE e.res_v = (IF st[e.x].d = st[e.y].d THEN 1 ELSE 2)
      [] e.op \in {"setrow", "setcol", "resize"} -> e.res_v = 1
      [] e.op \in {"pluseq", "minuseq"} -> /\ e.res.r = post[e.x].r /\ e.res.c = post[e.x].c
                                           /\ SameD(ty, post[e.x].d, e.res.d)
      [] OTHER -> TRUE

\* the observation of a whole store: <<name, rows, columns, size, flags, elements>> of every live matrix
Flags(m) == (IF IsSquare(m) THEN 1 ELSE 0) + (IF IsVec(m) THEN 2 ELSE 0) + (IF IsScalar(m) THEN 4 ELSE 0)
Match(ty, pool, st) ==
    /\ Len(pool) = Cardinality(DOMAIN st)
    /\ \A k \in 1..Len(pool) :
         LET o == pool[k] IN
         /\ o[1] \in DOMAIN st
         /\ LET m == st[o[1]] IN
            /\ o[2] = m.r /\ o[3] = m.c /\ o[4] = Size(m) /\ o[5] = Flags(m)
            /\ SameD(ty, m.d, o[6])
=============================================================================
