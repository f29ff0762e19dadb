---------------------------- MODULE TraceRegistry ----------------------------
(* C18: recorded registrations and parses of the real code *)
EXTENDS Registry, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
More == l <= Len(T.ev)
Is(e) == More /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tr
TraceInit == \E i \in 1 .. Len(Traces) : tr = i /\ l = 1 /\ RegInit(Traces[i].decs, Traces[i].n)
Els(b) == LET m == ParseMsg(b) IN IF m.ok THEN m.sd ELSE <<>>
TraceNext ==
  \/ Is("rcall") /\ RegisterCall(E.w, {E.ds[k] : k \in 1 .. Len(E.ds)})
  \/ Is("rret") /\ RegisterReturn(E.w)
  \/ Is("pcall") /\ ParseCall(E.w, Els(T.msgs[E.m]))
  \/ Is("pret") /\ ParseReturn(E.w, E.items)
  \* registrations that matter later: only just before a return
  \/ /\ More /\ E.e \in {"rret", "pret", "pcall"}
     /\ \E w \in Workers : \E d \in adding[w] : DoRegister(w, d)
     /\ UNCHANGED <<tr, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<gvars, tr, l>>
Done == l = Len(T.ev) + 1
Report1 == /\ (Done => PrintT(<<"ACC", tr>>))
           /\ (IOEnv.PROGRESS = "1" => PrintT(<<"POS", tr, l>>))
=============================================================================
