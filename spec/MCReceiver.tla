----------------------------- MODULE MCReceiver -----------------------------
(* Bounded instance: two connections with all kinds of items; C05-C09 *)
EXTENDS Receiver, TLC

CONSTANTS MaxFaults, ItemLen, NConn

VARIABLES out     \* what Receive returned: <<c, i>>
hv == <<out>>
vars == <<rvars, out>>

It(e, k, t) == [end |-> e, may |-> e, kind |-> k, tail |-> t, d |-> e]
Streams == { << It(ItemLen, "msg", FALSE), It(2 * ItemLen, "err", FALSE), It(2 * ItemLen, "incmsg", TRUE) >>,
             << It(ItemLen, "msg", FALSE), It(2 * ItemLen, "lost", FALSE) >>,
             << It(ItemLen, "msg", FALSE), It(2 * ItemLen, "msg", FALSE) >> }
Size(c) == LET s == items[c] IN s[Len(s)].end

Init == out = <<>> /\ \E f \in [1 .. NConn -> Streams] : RInit(f)

\* the accepting goroutine: pending is abstracted, an Accept returns a connection, an error, or the end
doAccept(c) == (\A b \in 1 .. c - 1 : cst[b] # "new") /\ Accept(c) /\ UNCHANGED hv
doAcceptFail == faults < MaxFaults /\ lst = "open" /\ (\E p \in BOOLEAN : AcceptFail(faults + 1, p, endSt = "no", 0)) /\ UNCHANGED hv
doFeed(c) == fed[c] < Size(c) /\ (\E n \in 1 .. Size(c) - fed[c] : Feed(c, n)) /\ UNCHANGED hv
doEof(c) == fed[c] = Size(c) /\ Eof(c) /\ UNCHANGED hv
\* (the stream is what comes before the end)
doReadFail(c) == fed[c] = Size(c) /\ faults < MaxFaults /\ (\E p \in BOOLEAN : ReadFail(c, faults + 1, p, 0)) /\ UNCHANGED hv
\* the connection is closed by the goroutine that handed over its results
doClose(c) == Complete(c) \subseteq got[c] /\ Close(c) /\ UNCHANGED hv
doRecv(c) == \E i \in DOMAIN items[c] : i \in Complete(c) /\ Recv(c, i, 1) /\ out' = Append(out, <<c, i>>)
doRecvEnd == ~over /\ RecvEnd(1) /\ UNCHANGED hv
doEnd == EndCall /\ UNCHANGED hv
doEndRet == EndReturn /\ UNCHANGED hv
doCloseL == lst = "open" /\ CloseListener /\ UNCHANGED hv
doReadErr == (\E k \in errs : ReadErr(k)) /\ UNCHANGED hv

System == doRecvEnd \/ doCloseL \/ doEndRet \/ \E c \in Conns : doClose(c) \/ doRecv(c)
Env == doEnd \/ doReadErr \/ doAcceptFail \/ \E c \in Conns : doAccept(c) \/ doFeed(c) \/ doEof(c) \/ doReadFail(c)
Next == System \/ Env
Fair == /\ WF_vars(doRecvEnd) /\ WF_vars(doCloseL) /\ WF_vars(doEndRet)
        /\ \A c \in 1 .. NConn : /\ WF_vars(doClose(c)) /\ WF_vars(doRecv(c))
                                 /\ WF_vars(doFeed(c)) /\ WF_vars(doEof(c))
SafeSpec == Init /\ [][Next]_vars
Spec == SafeSpec /\ Fair

------------------------------------------------------------------------------
Idx(c) == SelectSeq(out, LAMBDA x : x[1] = c)
\* C05, C08: each connection gives its results in order, without hole, each once
InOrder == \A c \in Conns : \A k \in 1 .. Len(Idx(c)) : Idx(c)[k][2] = k
\* nothing is invented
NotEarly == \A c \in Conns : \A i \in got[c] : May(c, i)
\* C06: nothing after an undecodable header; C07: everything complete comes before the end
NothingAfterLost == \A c \in Conns : Lost(c) # 0 => \A i \in got[c] : i <= Lost(c)
EndOk == over => \A c \in Conns : cst[c] # "new" => Complete(c) \subseteq got[c]
\* C05: complete results come without anything else happening
Prompt == \A c \in 1 .. NConn : \A i \in 1 .. 2 : (i \in Complete(c)) ~> (i \in got[c])
ClosedInTheEnd == \A c \in 1 .. NConn : (cst[c] = "ended" \/ LostNow(c)) ~> (cst[c] = "closed")
\* C09
Ends == (endSt # "no") ~> over
NoAcceptAfterEnd == [][over => cst' = cst]_vars
=============================================================================
