----------------------------- MODULE MCChannel -----------------------------
(* The Viterbi algorithm as a state machine: in every stage each state keeps *)
(* some best way into it.  Invariant: its metric is the least one over all   *)
(* sequences.  Encoding is the path through the trellis, and noise-free      *)
(* outputs determine the symbols.  The sums of the BCJR recursions are those *)
(* over all sequences.                                                       *)
EXTENDS Channel, Json
CONSTANTS MaxStages, MaxTap
\* exact likelihoods
T == INSTANCE Trellis
VARIABLES part, h, a, s0, y, mt, sv, last
vars == <<part, h, a, s0, y, mt, sv, last>>
Taps2 == {<<p, q>> : p \in 0..MaxTap, q \in (-1)..MaxTap}
Taps3 == {<<1, 2, 1>>, <<2, -1, 1>>, <<1, 0, -1>>, <<0, 1, 1>>, <<1, 1, 0>>}
Pairs == (Taps2 \X {<<-1, 1>>, <<1, 0>>}) \cup ({<<1, -1>>, <<0, 1>>} \X {<<-2, 0, 2>>, <<1, 1>>}) \cup (Taps3 \X {<<-1, 1>>})
NoPath == <<-1>>
Init == /\ part \in {"viterbi", "enc", "bcjr"}
        /\ \E p \in Pairs : h = p[1] /\ a = p[2] /\ s0 \in 0..(NStates(h, a) - 1)
        /\ (part = "bcjr" => a \in {<<-1, 1>>, <<1, 0>>} /\ s0 = 0 /\ h \in Taps3 \cup {<<1, 1>>, <<2, -1>>, <<0, 1>>, <<1, 0>>})
        /\ y = <<>> /\ last = FALSE
        /\ mt = Start0(h, a, s0)
        /\ sv = [s \in 1..NStates(h, a) |-> IF s = s0 + 1 THEN <<>> ELSE NoPath]
Received == {-1, 0, 2}
Paths(n) == [1..n -> Range0(Len(a))]
\* all choices of a best way into every state, as functions from states to previous states
BestWays(v) == LET S == 1..NStates(h, a) IN
    {f \in [S -> 0..NStates(h, a)] : \A s \in S : \E I \in {Into(h, a, mt, s-1, v)} : IF I = {} THEN f[s] = 0 ELSE f[s] # 0 /\ <<Least(I), f[s]-1>> \in I}
Viterbi == /\ part = "viterbi" /\ ~last /\ Len(y) < MaxStages
           /\ \E v \in Received : \E f \in BestWays(v) :
                /\ y' = Append(y, v)
                /\ mt' = [s \in 1..Len(mt) |-> Least(Into(h, a, mt, s-1, v))]
                /\ sv' = [s \in 1..Len(sv) |-> IF f[s] = 0 THEN NoPath ELSE Append(sv[f[s]], (s-1) % Len(a))]
           /\ last' = (Len(y') = MaxStages)
           /\ (Len(y') > Mem(h) => PrintT(ToJson([op |-> "mlse", h |-> h, a |-> a, s0 |-> s0, y |-> y'])))
           /\ UNCHANGED <<part, h, a, s0>>
Encode == /\ part = "enc" /\ ~last /\ \E n \in 1..MaxStages : y' \in Paths(n)
          /\ last' = TRUE /\ UNCHANGED <<part, h, a, s0, mt, sv>>
          /\ PrintT(ToJson([op |-> "enc", h |-> h, a |-> a, s0 |-> s0, u |-> y']))
Bcjr == /\ part = "bcjr" /\ ~last /\ \E n \in 1..MaxStages : y' \in [1..n -> {-1, 0, 1}]
        /\ last' = TRUE /\ UNCHANGED <<part, h, a, s0, mt, sv>>
        /\ PrintT(ToJson([op |-> "bcjr", h |-> h, a |-> a, y |-> y']))
Next == Viterbi \/ Encode \/ Bcjr
Spec == Init /\ [][Next]_vars
ViterbiLaw == part = "viterbi" => \A s \in 1..NStates(h, a) :
    \E C \in {{Dist2(y, Outputs(h, a, s0, u)) : u \in {u \in Paths(Len(y)) : EndOf(h, a, s0, u) = s-1}}} :
    IF mt[s] = Inf THEN C = {} /\ sv[s] = NoPath
    ELSE /\ mt[s] \in C /\ \A c \in C : c >= mt[s]
         /\ EndOf(h, a, s0, sv[s]) = s-1 /\ Dist2(y, Outputs(h, a, s0, sv[s])) = mt[s]
\* what the decoder returns, cut off before the symbols of the final state
ResultLaw == part = "viterbi" /\ Len(y) > Mem(h) => /\ mt = Metrics(h, a, s0, y)
                                                    /\ IsML(h, a, s0, y, [k \in 1..(Len(y) - Mem(h)) |-> a[sv[s0+1][k] + 1]])
EncLaw == part = "enc" /\ last => LET x == [k \in 1..Len(y) |-> a[y[k]+1]] z == EncodeISI(h, a, x, s0) IN
    /\ z = Outputs(h, a, s0, y \o StateDigits(h, a, s0)) /\ EndOf(h, a, s0, y \o StateDigits(h, a, s0)) = s0
    /\ (h[1] # 0 /\ IsInjective(a)) => \A v \in Paths(Len(y)) : Convolved(x, h) = Convolved([k \in 1..Len(y) |-> a[v[k]+1]], h) => v = y
    /\ Metrics(h, a, s0, z)[s0+1] = 0
Nx(s, b) == NextSt(h, a, s, b)
E(k, s, b) == 30 - (y[k] - OutputOf(h, a, s, b)) * (y[k] - OutputOf(h, a, s, b))
BcjrLaw == part = "bcjr" /\ last => \E F \in {T!Forward(Len(y), NStates(h, a), Nx, E)}, B \in {T!Backward(Len(y), NStates(h, a), Nx, E)} :
    \A k \in 1..Len(y) : \A b \in {0,1} : T!Total(F, B, NStates(h, a), Nx, E, k, b) = T!Enumerated(Len(y), Nx, E, k, b)
=============================================================================
