------------------------------ MODULE MCSender ------------------------------
(* Bounded instance of Sender with history variables: the guarantees C01-C04 *)
EXTENDS Sender, TLC

CONSTANTS NMsg, FrameLen, MaxFaults, MaxTicks, MaxConns, BadMsg

VARIABLES wire,    \* wire[c]: bytes accepted by connection c, as pairs <<m, i>>
          before,  \* pairs <<m, n>> such that Send(m) returned before Send(n) was called
          fin,     \* messages completely written, in order
          ticks, seen, raised

hvars == <<wire, before, fin, ticks, seen, raised>>
vars == <<svars, hvars>>

M == 1..NMsg
Init == /\ SInit([m \in M |-> IF m = BadMsg THEN 0 ELSE FrameLen])
        /\ wire = <<>> /\ before = {} /\ fin = <<>> /\ ticks = 0 /\ seen = <<>> /\ raised = <<>>

doCall(m) == Call(m) /\ before' = before \cup {<<n, m>> : n \in {x \in M : ret[x]}}
             /\ UNCHANGED <<wire, fin, ticks, seen, raised>>
doEnqueue(m) == Enqueue(m) /\ UNCHANGED hvars
doReturn(m) == Return(m) /\ UNCHANGED hvars
doRefuse(m) == Refuse(m) /\ UNCHANGED hvars
doTick == ticks < MaxTicks /\ Tick /\ ticks' = ticks + 1 /\ UNCHANGED <<wire, before, fin, seen, raised>>
doEndCall == EndCall /\ UNCHANGED hvars
\* the code only works on a tick or at the end
Active == (due # {} \/ endSt = "asked")
doConnect == /\ Active /\ Len(cstat) < MaxConns /\ Connect(Len(cstat) + 1) /\ wire' = Append(wire, <<>>)
             /\ UNCHANGED <<before, fin, ticks, seen, raised>>
doConnectFail(p) == Active /\ faults < MaxFaults /\ ConnectFail(faults + 1, p)
             /\ raised' = Append(raised, <<faults + 1, p>>) /\ UNCHANGED <<wire, before, fin, ticks, seen>>
doWrite == /\ Active /\ queue # <<>> /\ conn # 0
           /\ \E b \in pos + 1 .. flen[Head(queue)] :
                /\ WriteSeg(conn, Head(queue), pos, b)
                /\ wire' = [wire EXCEPT ![conn] = @ \o [i \in 1 .. b - pos |-> <<Head(queue), pos + i>>]]
                /\ fin' = IF b = flen[Head(queue)] THEN Append(fin, Head(queue)) ELSE fin
           /\ UNCHANGED <<before, ticks, seen, raised>>
doWriteFail(p) == /\ Active /\ queue # <<>> /\ conn # 0 /\ faults < MaxFaults /\ WriteFail(conn, faults + 1, p)
             /\ raised' = Append(raised, <<faults + 1, p>>) /\ UNCHANGED <<wire, before, fin, ticks, seen>>
doNoBuffer == Active /\ queue # <<>> /\ conn # 0 /\ faults < MaxFaults /\ NoBuffer(conn, faults + 1) /\ UNCHANGED hvars
doCloseFailed == \E c \in DOMAIN cstat : cstat[c] = "failed" /\ Close(c) /\ UNCHANGED hvars
doCloseLast == /\ endSt = "asked" /\ queue = <<>> /\ conn # 0 /\ Close(conn) /\ UNCHANGED hvars
doEndReturn == EndReturn /\ UNCHANGED hvars
doReadErr == errs # <<>> /\ ReadErr(Head(errs)) /\ seen' = Append(seen, Head(errs))
             /\ UNCHANGED <<wire, before, fin, ticks, raised>>
doErrClosed == endSt = "done" /\ ErrClosed /\ UNCHANGED hvars

Callers == \E m \in M : doEnqueue(m) \/ doReturn(m) \/ doRefuse(m)
Flusher == doConnect \/ doWrite \/ doCloseFailed \/ doCloseLast \/ doEndReturn
Faulty == doNoBuffer \/ \E p \in BOOLEAN : doConnectFail(p) \/ doWriteFail(p)
Next == \/ \E m \in M : doCall(m)
        \/ Callers \/ doTick \/ doEndCall \/ Flusher \/ Faulty \/ doReadErr \/ doErrClosed

SafeSpec == Init /\ [][Next]_vars
Spec == SafeSpec /\ WF_vars(Callers) /\ WF_vars(Flusher) /\ WF_vars(doErrClosed)

------------------------------------------------------------------------------
(* C01, C02 *)
Whole(m) == [i \in 1 .. flen[m] |-> <<m, i>>]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Whole(Head(s)) \o Flat(Tail(s))
\* the connections carry, one after the other, the written messages; only a failed or the current
\* connection may end with a part of a frame, which is a prefix of it
RECURSIVE Split(_, _, _)
Split(c, k, ok) ==      \* connections c.., k messages of fin already seen
  IF ~ok THEN FALSE
  ELSE IF c > Len(wire) THEN k = Len(fin)
  ELSE \E n \in 0 .. Len(fin) - k :
         LET f == Flat(SubSeq(fin, k + 1, k + n))
             r == SubSeq(wire[c], Len(f) + 1, Len(wire[c]))
         IN  /\ Len(f) <= Len(wire[c])
             /\ SubSeq(wire[c], 1, Len(f)) = f
             /\ r # <<>> => /\ \E m \in M : Len(r) < flen[m] /\ r = SubSeq(Whole(m), 1, Len(r))
                            /\ (c # conn => cstat[c] # "open")
             /\ Split(c + 1, k + n, TRUE)
WireOk == Split(1, 0, TRUE)
ExactlyOnce == /\ \A i, j \in 1 .. Len(fin) : fin[i] = fin[j] => i = j
               /\ \A m \in M : (st[m] = "written") = (\E i \in 1 .. Len(fin) : fin[i] = m)
NoLoss == \A m \in M : (st[m] = "queued") = (\E i \in 1 .. Len(queue) : queue[i] = m)
Fifo == \A i, j \in 1 .. Len(fin) : <<fin[i], fin[j]>> \in before => i < j
Refused == \A m \in M : flen[m] = 0 => \A i \in 1 .. Len(fin) : fin[i] # m
(* C03 *)
EndOk == endSt = "done" => /\ \A m \in must : st[m] = "written"
                           /\ \A c \in DOMAIN cstat : cstat[c] = "closed"
NothingAfterEnd == [][endSt = "done" => wire' = wire /\ cstat' = cstat]_vars
(* C04 *)
ErrOrder == \A i, j \in 1 .. Len(seen) : i < j => seen[i] < seen[j]
\* with no reader at all, everything accepted is delivered and End returns
Ends == (endSt = "asked") ~> (endSt = "done")
Flushed == (due # {}) ~> (due = {})
\* the first failure is published, even if it's read much later
Published == (raised # <<>> /\ endSt = "done" /\ errSt = "closed") => (seen # <<>> /\ seen[1] = raised[1][1])
=============================================================================
