------------------------------- MODULE MCStat -------------------------------
(* The laws of the reductions on all small matrices; every matrix is printed *)
(* and goes through every reduction and map of the implementation.           *)
EXTENDS Stat, Json
CONSTANTS MaxR, MaxC, Raw, Emit
VARIABLE a
Vals == {v - 2 : v \in Raw}
Init == \E r \in 1..MaxR, c \in 1..MaxC : a = [r |-> r, c |-> c, d |-> <<>>]
Next == /\ Len(a.d) < Size(a)
        /\ \E v \in Vals : a' = [a EXCEPT !.d = Append(@, v)]
        /\ (Emit /\ Len(a'.d) = Size(a') => PrintT(ToJson(a')))
Spec == Init /\ [][Next]_a
D == a.d
T == Transpose(a)
Laws == Len(D) = Size(a) =>
  /\ \A k \in 1..Len(Groups(a)) : LET d == Groups(a)[k] IN
       /\ d[ArgMin(d)+1] <= d[ArgMax(d)+1]
       /\ \A j \in 1..Len(d) : d[j] \in d[ArgMin(d)+1]..d[ArgMax(d)+1]
       /\ Len(d) * d[ArgMin(d)+1] <= SumSeq(d) /\ SumSeq(d) <= Len(d) * d[ArgMax(d)+1]
       /\ VarN(d) >= 0 /\ (VarN(d) = 0) = (\A j \in 1..Len(d) : d[j] = d[1])
       /\ VarN([j \in 1..Len(d) |-> d[j] + 3]) = VarN(d)
       /\ SumSeq(Diff(d)) = d[Len(d)] - d[1]
  /\ SumSeq([k \in 1..Len(Groups(a)) |-> SumSeq(Groups(a)[k])]) = SumSeq(D)
  /\ IsVec(a) => Groups(T) = Groups(a)
=============================================================================
