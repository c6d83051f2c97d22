----------------------------- MODULE TrPoolOff -----------------------------
(* Validation of histories recorded without the assertions: an access out of *)
(* range reads a zero element, a request out of range changes no matrix.     *)
EXTENDS MatrixStore, TraceBase
VARIABLES l, st, ty, sc
vars == <<l, st, ty, sc>>
Ev == Tr[l]
Begin == /\ Ev.op = "begin" /\ Ev.out = "ok"
         /\ st' = Init0 /\ ty' = Ev.t /\ sc' = (IF "s" \in DOMAIN Ev THEN Ev.s ELSE 1)
In == /\ Ev.op # "begin" /\ Ev.out = "ok" /\ Pre(ty, st, Ev)
      /\ \E s2 \in Post(ty, sc, st, Ev) : Match(ty, Ev.pool, s2) /\ Res(ty, sc, st, Ev, s2) /\ st' = s2
      /\ UNCHANGED <<ty, sc>>
Element == {"get", "get2", "at", "at2", "mat", "mat2"}
Guarded == {"set", "set2", "addto", "setrow", "setcol", "swaprows", "swapcols"}
Slices  == {"row", "col", "left", "right", "mid", "shrink"}
\* what a slice out of range gives is open, as long as it is a matrix
Shown(x) == LET o == CHOOSE o \in {Ev.pool[k] : k \in 1..Len(Ev.pool)} : o[1] = x IN Fill(o[2], o[3], AnyE(ty))
Off == /\ Ev.op # "begin" /\ Ev.out = "ok" /\ ~Pre(ty, st, Ev) /\ ~Open(ty, Ev, st)
       /\ CASE Ev.op \in Element -> Ev.res_v = Zero(ty) /\ Match(ty, Ev.pool, st) /\ st' = st
            [] Ev.op \in Guarded -> (IF Ev.op \in {"setrow", "setcol"} THEN Ev.res_v = 0 ELSE TRUE) /\ Match(ty, Ev.pool, st) /\ st' = st
            [] Ev.op \in {"rowvec", "colvec"} -> (\A k \in 1..Len(Ev.res_v) : Ev.res_v[k] = Zero(ty)) /\ Match(ty, Ev.pool, st) /\ st' = st
            [] Ev.op \in Slices -> /\ \E k \in 1..Len(Ev.pool) : Ev.pool[k][1] = Ev.x
                                   /\ \E s2 \in {With(st, Ev.x, Shown(Ev.x))} : Match(ty, Ev.pool, s2) /\ st' = s2
       /\ UNCHANGED <<ty, sc>>
Next == l <= Len(Tr) /\ (IF Ev.op = "begin" THEN Begin ELSE IF Pre(ty, st, Ev) THEN In ELSE Off) /\ l' = l + 1
Init == l = 1 /\ st = Init0 /\ ty = "i" /\ sc = 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Tr)>>)
=============================================================================
