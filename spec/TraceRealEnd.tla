---------------------------- MODULE TraceRealEnd ----------------------------
(* C09: real receivers with real listeners, and their end *)
EXTENDS RealEnd, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
More == l <= Len(T.ev)
TraceInit == \E i \in 1 .. Len(Traces) : tr = i /\ l = 1 /\ REInit(Traces[i].net)
TraceNext == /\ More /\ l' = l + 1 /\ UNCHANGED tr
             /\ CASE E.e = "listen" -> Listen
                  [] E.e = "connect" -> Connect(E.c, E.ok)
                  [] E.e = "say" -> Say(E.c, E.k)
                  [] E.e = "leave" -> Leave(E.c)
                  [] E.e = "recv" -> E.ok /\ Receive(E.c, E.k)
                  [] E.e = "end" -> End
                  [] E.e = "close" -> Close
                  [] E.e = "over" -> Over
                  [] E.e = "notover" -> NotOver
                  [] E.e = "sync" -> Sync
                  [] E.e = "settle" -> Settle
TraceSpec == TraceInit /\ [][TraceNext]_<<revars, tr, l>>
Done == l = Len(T.ev) + 1
Report1 == /\ (Done => PrintT(<<"ACC", tr>>))
           /\ (IOEnv.PROGRESS = "1" => PrintT(<<"POS", tr, l>>))
=============================================================================
