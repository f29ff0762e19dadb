------------------------------ MODULE TracePath ------------------------------
(* C20: what happened at a path of the real file system *)
EXTENDS Path, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
More == l <= Len(T.ev)
TraceInit == \E i \in 1 .. Len(Traces) : tr = i /\ l = 1 /\ PathInit(Traces[i].where)
TraceNext == /\ More /\ l' = l + 1 /\ UNCHANGED tr
             /\ CASE E.e = "place" -> Place(E.k)
                  [] E.e = "clear" -> Clear
                  [] E.e = "perm" -> Perm(E.k)
                  [] E.e = "listen" -> Listen(E.t, E)
                  [] E.e = "dead" -> Dead(E.t, E, FALSE)
                  [] E.e = "nobody" -> Dead(E.t, E, TRUE)
                  [] E.e = "use" -> Use(E.ok)
                  [] E.e = "close" -> Close(E.now)
TraceSpec == TraceInit /\ [][TraceNext]_<<pvars, tr, l>>
Done == l = Len(T.ev) + 1
Report1 == /\ (Done => PrintT(<<"ACC", tr>>))
           /\ (IOEnv.PROGRESS = "1" => PrintT(<<"POS", tr, l>>))
=============================================================================
