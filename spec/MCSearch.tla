------------------------------ MODULE MCSearch ------------------------------
(* Dijkstra's algorithm as a transition system with an arbitrary choice among *)
(* ties, on all graphs with few nodes and weights: every run ends with        *)
(* predecessors that IsPrev accepts, and the distances are those of the       *)
(* enumeration of all simple paths.  Each graph and source is printed.        *)
EXTENDS Search, Json
CONSTANTS NN, Weights, Loops, Emit
VARIABLES g, s, dist, prev, open
vars == <<g, s, dist, prev, open>>
NS == 0..(NN-1)
Init == /\ g \in {[r |-> NN, c |-> NN, d |-> d] : d \in [1..(NN*NN) -> Weights]}
        /\ \A v \in NS : At(g, v, v) \in Loops
        /\ s = None /\ dist = <<>> /\ prev = <<>> /\ open = {}
Pick == /\ s = None /\ s' \in NS /\ open' = NS /\ g' = g
        /\ dist' = [v \in NS |-> IF v = s' THEN 0 ELSE None] /\ prev' = [v \in NS |-> 0]
        /\ (Emit => PrintT(ToJson([g |-> g, s |-> s'])))
Less(a, b) == a # None /\ (b = None \/ a < b)
Visit == /\ s # None /\ open # {}
         /\ \E u \in open :
              /\ \A w \in open : ~Less(dist[w], dist[u])
              /\ open' = open \ {u}
              /\ LET better(v) == dist[u] # None /\ W(g,u,v) # 0 /\ Less(dist[u] + W(g,u,v), dist[v]) IN
                 /\ dist' = [v \in NS |-> IF better(v) THEN dist[u] + W(g,u,v) ELSE dist[v]]
                 /\ prev' = [v \in NS |-> IF better(v) THEN u ELSE prev[v]]
         /\ UNCHANGED <<g, s>>
Next == Pick \/ Visit
Spec == Init /\ [][Next]_vars

RECURSIVE Paths(_,_,_)
Paths(u, v, seen) == IF u = v THEN {0}
    ELSE UNION {{W(g,u,w) + x : x \in Paths(w, v, seen \cup {u})} : w \in {w \in NS : W(g,u,w) # 0 /\ w \notin seen /\ w # u}}
DistOK == (s # None /\ open = NS) =>
            \A v \in NS : LET P == Paths(s, v, {}) IN Dist(g, s)[v] = IF P = {} THEN None ELSE MinOf(P)
Done == (s # None /\ open = {}) => IsPrev(g, s, LAMBDA v : prev[v]) /\ dist = Dist(g, s)
\* a visited node keeps its distance
Final == [][\A v \in NS : (s # None /\ v \notin open) => dist'[v] = dist[v]]_vars
\* exactly one sorted arrangement, and selection of everything is a sort index
Laws == LET q == g.d IN
        /\ \E ix \in {[k \in 1..NN |-> f[k]] : f \in [1..NN -> 0..(NN-1)]} : IsSortIndex(ix, SubSeq(q, 1, NN))
        /\ \A f \in [1..NN -> 0..(NN-1)] : LET v == SubSeq(q, 1, NN) IN
             /\ IsSortIndex(f, v) = IsLeast(f, v, AllOf(v), NN)
             /\ IsSortIndex(f, v) => IsSortOf(ValsAt(v, f), v)
=============================================================================
