------------------------------ MODULE GenPath ------------------------------
(* random histories of a path, for the real code *)
EXTENDS Path, Json
VARIABLE h
Do(o, k, t) == h' = Append(h, [O |-> o, K |-> k, T |-> t, Via |-> IF Len(h) % 2 = 0 THEN "direct" ELSE "guess"])
Obs(ok) == IF ok THEN [res |-> "ok", was |-> "-", now |-> "sock", at |-> FALSE, rest |-> TRUE]
           ELSE [res |-> "err", was |-> "-", now |-> "-", at |-> TRUE, rest |-> TRUE]
GInit == PathInit("ok") /\ h = <<>>
GNext == \/ \E k \in Stale \cup Foreign : at = Nothing /\ Place(k) /\ Do("place", k, "")
         \/ at # Nothing /\ Clear /\ Do("clear", "", "")
         \/ \E k \in {"closed", "open", "sticky"} : perm # k /\ lis = "-" /\ Perm(k) /\ Do("perm", k, "")
         \/ \E t \in Types : \E b \in BOOLEAN :
              \/ Listen(t, Obs(b)) /\ Do("listen", "", t)
              \/ Dead(t, Obs(b), FALSE) /\ Do("dead", "", t)
              \/ Dead(t, Obs(b), TRUE) /\ Do("nobody", "", t)
         \/ Use(TRUE) /\ Do("use", "", "")
         \/ lis # "-" /\ Close(IF lis = "unix" THEN "none" ELSE "sock") /\ Do("close", "", "")
GSpec == GInit /\ [][GNext]_<<pvars, h>>
Out == Len(h) = 14 => PrintT("SCN " \o ToJson(h))
=============================================================================
