----------------------------- MODULE TrPoolMem ------------------------------
(* Histories of matrices that use the logging allocator: the used memory is  *)
(* the storage of the live matrices, after every operation.                  *)
EXTENDS TrPool
Bytes(t) == CASE t \in {"b", "u"} -> 1 [] t \in {"i", "f"} -> 4 [] t \in {"d", "cf", "ci"} -> 8 [] OTHER -> 16
RECURSIVE Sum(_, _)
Sum(s, X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN s[x].r * s[x].c + Sum(s, X \ {x})
NextM == /\ Next
         /\ (Ev.op # "begin" /\ Ev.out = "ok") => Ev.used = Bytes(ty) * Sum(st', DOMAIN st')
SpecM == Init /\ [][NextM]_vars
=============================================================================
