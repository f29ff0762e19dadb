------------------------------ MODULE TraceDial ------------------------------
(* C21: real Senders made by Dial, and what their peers got *)
EXTENDS Dial, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
More == l <= Len(T.ev)
Cfg(t) == [net |-> t.net, tr |-> t.tr, auto |-> t.auto, peer |-> t.peer, addr |-> t.addr, late |-> t.late,
           fams |-> {t.fams[i] : i \in DOMAIN t.fams}]
TraceInit == \E i \in 1 .. Len(Traces) : tr = i /\ l = 1 /\ DialInit(Cfg(Traces[i]))
TraceNext == /\ More /\ l' = l + 1 /\ UNCHANGED tr
             /\ CASE E.e = "up" -> Up
                  [] E.e = "dial" -> Dialed(E.ok)
                  [] E.e = "send" -> ~E.err /\ Send(E.d)
                  [] E.e = "data" -> Data(E.d, E.on)
                  [] E.e = "sync" -> Sync
                  [] E.e = "idle" -> Idle
                  [] E.e = "late" -> Late(E.ok)
                  [] E.e = "err" -> Err
                  [] E.e = "noerr" -> NoErr
                  [] E.e = "endcall" -> EndCall
                  [] E.e = "endret" -> EndRet
TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, tr, l>>
Done == l = Len(T.ev) + 1
Report1 == /\ (Done => PrintT(<<"ACC", tr>>))
           /\ (IOEnv.PROGRESS = "1" => PrintT(<<"POS", tr, l>>))
=============================================================================
