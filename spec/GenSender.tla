------------------------------ MODULE GenSender ------------------------------
(* Random behaviours of MCSender, written out as scenarios for the real code *)
EXTENDS MCSender, Json
VARIABLE hist
gvars == <<vars, hist>>
H(e, m, n) == hist' = Append(hist, [e |-> e, m |-> m, n |-> n, act |-> Active])
GInit == Init /\ hist = <<>>
GNext ==
  \/ \E m \in M : doCall(m) /\ (\A x \in 1 .. m - 1 : st[x] # "idle") /\ H("call", m, 0)
  \/ Callers /\ UNCHANGED hist
  \/ doTick /\ H("tick", 0, 0)
  \/ doEndCall /\ (ticks > 1 \/ \A m \in M : st[m] # "idle") /\ H("end", 0, 0)
  \/ doConnect /\ H("conn", 0, 0)
  \/ (\E p \in BOOLEAN : doConnectFail(p)) /\ H("cfail", 0, 0)
  \/ doWrite /\ H("w", Head(queue), IF Len(queue') < Len(queue) THEN flen[Head(queue)] - pos ELSE pos' - pos)
  \/ (\E p \in BOOLEAN : doWriteFail(p)) /\ H("wfail", 0, 0)
  \/ doNoBuffer /\ H("nobuf", 0, 0)
  \/ (doCloseFailed \/ doCloseLast \/ doEndReturn) /\ UNCHANGED hist
  \/ doReadErr /\ H("read", 0, 0)
  \/ doErrClosed /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_gvars
Out == (endSt = "done") => PrintT("SCN " \o ToJson(hist))
Stop == endSt # "done"
=============================================================================
