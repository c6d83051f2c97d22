------------------------------- MODULE TrPool -------------------------------
(* Validation of recorded histories against MatrixStore.                     *)
EXTENDS MatrixStore, TraceBase
VARIABLES l, st, ty, sc
vars == <<l, st, ty, sc>>
Ev == Tr[l]

Begin == /\ Ev.op = "begin" /\ Ev.out = "ok"
         /\ st' = Init0 /\ ty' = Ev.t /\ sc' = (IF "s" \in DOMAIN Ev THEN Ev.s ELSE 1)
\* an operation within its precondition
Ok == /\ Ev.op # "begin" /\ Ev.out = "ok"
      /\ (Pre(ty, st, Ev) \/ Open(ty, Ev, st))
      /\ IF Pre(ty, st, Ev)
         THEN \E s2 \in Post(ty, sc, st, Ev) : Match(ty, Ev.pool, s2) /\ Res(ty, sc, st, Ev, s2) /\ st' = s2
         ELSE st' = st
      /\ UNCHANGED <<ty, sc>>
\* the program stops on a violated precondition; the session ends
Stop == /\ Ev.op # "begin" /\ Ev.out = "abort"
        /\ (~Pre(ty, st, Ev) \/ Open(ty, Ev, st))
        /\ st' = Init0 /\ UNCHANGED <<ty, sc>>
Next == l <= Len(Tr) /\ (Begin \/ Ok \/ Stop) /\ l' = l + 1
Init == l = 1 /\ st = Init0 /\ ty = "i" /\ sc = 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
