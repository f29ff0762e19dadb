---------------------------- MODULE GenReceiver ----------------------------
(* Random behaviours of MCReceiver, written out as scenarios for the real code *)
EXTENDS MCReceiver, Json
VARIABLE hist
gvars == <<vars, hist>>
Kinds == {"msg", "err"}
Tails == {"none", "lost", "incmsg", "inc"}
GenStreams ==
  LET mk(ks, t) == [i \in 1 .. Len(ks) + (IF t = "none" THEN 0 ELSE 1) |->
                      IF i <= Len(ks) THEN It(ItemLen * i, ks[i], FALSE)
                      ELSE IF t = "lost" THEN It(ItemLen * i, t, FALSE)
                      ELSE [It(ItemLen * i, t, TRUE) EXCEPT !.may = ItemLen * i + 1]]
  IN  {mk(ks, t) : ks \in UNION {[1 .. n -> Kinds] : n \in 1 .. 3}, t \in Tails}
H(e, c, n) == hist' = Append(hist, [e |-> e, c |-> c, n |-> n])
GInit == Init /\ hist = <<>>
GNext ==
  \/ \E c \in Conns : doAccept(c) /\ H("accept", c, 0)
  \/ doAcceptFail /\ H("afail", 0, 0)
  \/ \E c \in Conns : cst[c] = "open" /\ ~LostNow(c) /\ (\E n \in 1 .. Size(c) - fed[c] : Feed(c, n) /\ UNCHANGED hv /\ H("feed", c, n))
  \/ \E c \in Conns : doEof(c) /\ H("eof", c, 0)
  \/ \E c \in Conns : doReadFail(c) /\ H("rfail", c, 0)
  \/ (\E c \in Conns : doClose(c) \/ doRecv(c)) /\ UNCHANGED hist
  \/ (doRecvEnd \/ doEndRet \/ doCloseL) /\ UNCHANGED hist
  \/ Len(hist) > 6 /\ doEnd /\ H("rend", 0, 0)
  \/ doReadErr /\ H("read", 0, 0)
GSpec == GInit /\ [][GNext]_gvars
Out == over => PrintT("SCN " \o ToJson([hist |-> hist, kinds |-> [c \in Conns |-> [i \in DOMAIN items[c] |-> items[c][i].kind]]]))
=============================================================================
