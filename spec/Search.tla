------------------------------- MODULE Search -------------------------------
(* Sorting, selecting, finding, and shortest paths.  Vectors are sequences;  *)
(* the indices of the library start at zero.                                 *)
EXTENDS Mat

Sorted(s) == \A k \in 1..(Len(s)-1) : s[k] <= s[k+1]
Count(s, v) == Cardinality({k \in 1..Len(s) : s[k] = v})
IsSortOf(r, s) == /\ Len(r) = Len(s) /\ Sorted(r)
                  /\ \A k \in 1..Len(s) : Count(r, s[k]) = Count(s, s[k])
Distinct(ix) == \A j, k \in 1..Len(ix) : j # k => ix[j] # ix[k]
ValsAt(s, ix) == [k \in 1..Len(ix) |-> s[ix[k]+1]]
IsSortIndex(ix, s) == /\ Len(ix) = Len(s) /\ Distinct(ix)
                      /\ \A k \in 1..Len(ix) : ix[k] \in 0..(Len(s)-1)
                      /\ Sorted(ValsAt(s, ix))
\* ix selects the n least elements of s among the allowed indices, in order
IsLeast(ix, s, allowed, n) ==
    /\ Len(ix) = n /\ Distinct(ix)
    /\ \A k \in 1..n : ix[k] \in allowed
    /\ Sorted(ValsAt(s, ix))
    /\ n > 0 => LET last == s[ix[n]+1] IN \A j \in allowed : s[j+1] < last => \E k \in 1..n : ix[k] = j
Negated(s) == [k \in 1..Len(s) |-> -s[k]]
AllOf(s) == 0..(Len(s)-1)
Found(s, v) == {k \in AllOf(s) : s[k+1] = v}

-----------------------------------------------------------------------------
(* A graph is a square matrix of weights, zero meaning no edge.              *)
None == -1
N(g) == g.r
Nodes(g) == 0..(g.r-1)
W(g, u, v) == At(g, u, v)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* one round of relaxation of all edges
Relax(g, d) == [v \in Nodes(g) |->
    LET c == {d[u] + W(g,u,v) : u \in {u \in Nodes(g) : d[u] # None /\ W(g,u,v) # 0}} \cup (IF d[v] = None THEN {} ELSE {d[v]})
    IN IF c = {} THEN None ELSE MinOf(c)]
RECURSIVE RelaxN(_,_,_)
RelaxN(g, d, n) == IF n = 0 THEN d ELSE LET e == Relax(g, d) IN IF e = d THEN d ELSE RelaxN(g, e, n-1)
Dist(g, s) == RelaxN(g, [v \in Nodes(g) |-> IF v = s THEN 0 ELSE None], N(g))
\* p(v) is the predecessor of v on a shortest path; zero for the source and where there is no path
IsPrev(g, s, p(_)) == LET d == Dist(g, s) IN \A v \in Nodes(g) :
    IF v = s \/ d[v] = None THEN p(v) = 0
    ELSE /\ p(v) \in Nodes(g) /\ W(g, p(v), v) # 0 /\ d[p(v)] # None /\ d[p(v)] + W(g, p(v), v) = d[v]
=============================================================================
