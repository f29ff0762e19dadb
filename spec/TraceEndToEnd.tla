---------------------------- MODULE TraceEndToEnd ----------------------------
(* C22: real Senders and Receivers that exchange messages over real sockets *)
EXTENDS EndToEnd, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
More == l <= Len(T.ev)
TraceInit == \E i \in 1 .. Len(Traces) : tr = i /\ l = 1 /\ E2EInit([auto |-> Traces[i].auto, lanes |-> Traces[i].lanes])
TraceNext == /\ More /\ l' = l + 1 /\ UNCHANGED tr
             /\ CASE E.e = "up" -> Up
                  [] E.e = "down" -> Down
                  [] E.e = "dial" -> Dial(E.s)
                  [] E.e = "call" -> Call(E.s, E.g)
                  [] E.e = "ret" -> Ret(E.s, E.g)
                  [] E.e = "recv" -> E.ok /\ Receive(E.s, E.g, E.k)
                  [] E.e = "sync" -> Sync
                  [] E.e = "endcall" -> EndCall(E.s)
                  [] E.e = "endret" -> EndRet(E.s)
TraceSpec == TraceInit /\ [][TraceNext]_<<evars, tr, l>>
Done == l = Len(T.ev) + 1
Report1 == /\ (Done => PrintT(<<"ACC", tr>>))
           /\ (IOEnv.PROGRESS = "1" => PrintT(<<"POS", tr, l>>))
=============================================================================
