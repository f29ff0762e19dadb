----------------------------- MODULE GenRealEnd -----------------------------
(* random histories of the clients of a receiver that is ended, for the real code *)
EXTENDS RealEnd, Json
VARIABLE h
Do(o, c, k) == h' = Append(h, [O |-> o, C |-> c, K |-> k])
GInit == REInit("unix") /\ h = <<>>
New(c) == cl[c] = "none" /\ \A d \in 1 .. c - 1 : cl[d] # "none"
All == /\ Len(h) < 13
       /\ \/ Listen /\ Do("listen", 0, 0)
          \/ \E c \in Clients : New(c) /\ Connect(c, run = "listens") /\ Do("connect", c, 0)
          \/ \E c \in Clients, k \in {1, 3} : run # "no" /\ Say(c, k) /\ Do("say", c, k)
          \/ \E c \in Clients : Leave(c) /\ Do("leave", c, 0)
          \/ run = "listens" /\ got # snt /\ got' = snt /\ UNCHANGED <<net, run, cl, snt, over>> /\ Do("sync", 0, 0)
          \/ Len(h) > 4 /\ Close /\ Do("close", 0, 0)
          \/ Len(h) > 5 /\ End /\ Do("end", 0, 0)
GSpec == GInit /\ [][All]_<<revars, h>>
Out == (Len(h) = 13 /\ run = "ended") => PrintT("SCN " \o ToJson(h))
=============================================================================
