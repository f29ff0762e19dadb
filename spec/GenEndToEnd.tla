----------------------------- MODULE GenEndToEnd -----------------------------
(* random histories of senders and of a receiver that is restarted *)
EXTENDS EndToEnd, Json
VARIABLES h
CONSTANT Restarts  \* FALSE: the receiver stays up (TCP)
gvars == <<evars, h>>
N == 3
GInit == /\ \E a \in [1 .. N -> BOOLEAN], g \in [1 .. N -> 1 .. 3] : E2EInit([auto |-> a, lanes |-> g])
         /\ h = <<>>
Do(o) == h' = Append(h, o)
O(n, s, k) == [O |-> n, S |-> s, N |-> k]
\* k messages by every lane, and everything that leaves is received
Batch(s, k) == /\ st[s] = "open"
               /\ cnt' = [cnt EXCEPT ![s] = [g \in Lanes(s) |-> @[g] + k]] /\ fin' = [fin EXCEPT ![s] = [g \in Lanes(s) |-> @[g] + k]]
               /\ UNCHANGED <<ec, up, st, need, rcv>> /\ Do(O("send", s, k))
Settle == up /\ ~AllThere /\ rcv' = [s \in Senders |-> IF Leaves(s) THEN cnt[s] ELSE rcv[s]]
          /\ UNCHANGED <<ec, up, st, cnt, fin, need>> /\ Do(O("sync", 0, 0))
Room == Len(h) < 18
GNext == /\ Room
         /\ \/ Up /\ Do(O("up", 0, 0))
            \/ Restarts /\ Down /\ (\E s \in Senders : st[s] = "open") /\ Do(O("down", 0, 0))
            \/ \E s \in Senders : Dial(s) /\ Do(O("dial", s, 0))
            \/ \E s \in Senders, k \in {1, 2, 7} : Batch(s, k)
            \/ Settle
            \/ \E s \in Senders : up /\ st[s] = "open" /\ (\E g \in Lanes(s) : cnt[s][g] > 0)
                                  /\ st' = [st EXCEPT ![s] = "ended"] /\ UNCHANGED <<ec, up, cnt, fin, need, rcv>> /\ Do(O("end", s, 0))
            \/ \E s \in Senders : ~up /\ st[s] = "open" /\ ~Delivered(s) /\ up' = TRUE
                                  /\ st' = [st EXCEPT ![s] = "ended"] /\ UNCHANGED <<ec, cnt, fin, need, rcv>> /\ Do(O("endup", s, 0))
GSpec == GInit /\ [][GNext]_gvars
Out == Len(h) = 18 => PrintT("SCN " \o ToJson([auto |-> ec.auto, lanes |-> ec.lanes, ops |-> h]))
=============================================================================
