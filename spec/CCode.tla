------------------------------- MODULE CCode -------------------------------
(* Convolutional codes of rate 1/n: a shift register of m bits, whose most   *)
(* recent bit is the most significant one, and n generators, given as octal  *)
(* numbers written in decimal digits, over the register and the input bit.   *)
EXTENDS Big
RECURSIVE Oct(_)
Oct(d) == IF d = 0 THEN 0 ELSE (d % 10) + 8 * Oct(d \div 10)
NextState(m, s, b) == (s \div 2) + b * 2^(m-1)
Bits(gen, m, s, b) == [j \in 1..Len(gen) |-> Parity((s + b * 2^m) & Oct(gen[j]))]
OutWord(gen, m, s, b) == SumTo(LAMBDA j : Bits(gen, m, s, b)[j] * 2^(j-1), 1, Len(gen))
\* the state machine run over a message from the zero state
RECURSIVE RunFrom(_,_,_,_,_)
RunFrom(gen, m, s, u, k) == IF k > Len(u) THEN <<>> ELSE Bits(gen, m, s, u[k]) \o RunFrom(gen, m, NextState(m, s, u[k]), u, k+1)
Encode(gen, m, u) == RunFrom(gen, m, 0, u, 1)
\* the definition: output j at time k is the parity of the taps over the current and the m previous bits
Tap(gen, m, j, i) == (Oct(gen[j]) \div 2^(m-i)) % 2
Definition(gen, m, u) == [p \in 1..(Len(u)*Len(gen)) |-> LET k == ((p-1) \div Len(gen)) + 1 j == ((p-1) % Len(gen)) + 1 IN
    SumTo(LAMBDA i : IF k - i >= 1 THEN Tap(gen, m, j, i) * u[k-i] ELSE 0, 0, m) % 2]
Hard(v) == IF v = 0 THEN 0 ELSE 1
=============================================================================
