---------------------------- MODULE TraceChannels ----------------------------
(* C14, C15: syslogs and channels of the real code, and the frames they produced *)
EXTENDS Channels, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
More == l <= Len(T.ev)
TraceInit == \E i \in 1 .. Len(Traces) : tr = i /\ l = 1 /\ ChanInit(Traces[i].n)
TraceNext == /\ More /\ l' = l + 1 /\ UNCHANGED tr
             /\ CASE E.e = "make" -> Make(E)
                  [] E.e = "log" -> LogTo(E)
                  [] E.e = "frame" -> Emitted(E.d)
                  [] E.e = "end" -> AllOut
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, tr, l>>
Done == l = Len(T.ev) + 1
Report1 == /\ (Done => PrintT(<<"ACC", tr>>))
           /\ (IOEnv.PROGRESS = "1" => PrintT(<<"POS", tr, l>>))
=============================================================================
