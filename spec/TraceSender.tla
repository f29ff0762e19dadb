---------------------------- MODULE TraceSender -----------------------------
(* Are the recorded executions of the real Sender behaviours of Sender.tla?  *)
(* Traces: lens (frame lengths), ord (messages in the order in which their    *)
(* first byte was accepted; rank is its inverse), ev (events).                *)
EXTENDS Sender, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, nq   \* trace, position, number of messages of ord already enqueued
tvars == <<svars, tr, l, nq>>

T == Traces[tr]
E == T.ev[l]
More == l <= Len(T.ev)
Is(e) == More /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tr

TraceInit == \E i \in 1 .. Len(Traces) : tr = i /\ l = 1 /\ nq = 0 /\ SInit(Traces[i].lens)

\* Enqueue isn't logged: it happens as late as possible, in the order of the writes
NeedsQueued == \/ E.e = "ret" /\ T.rank[E.m] > nq
               \/ E.e = "w" /\ E.m > 0 /\ T.rank[E.m] > nq
Silent == Enqueue(T.ord[nq + 1]) /\ nq' = nq + 1 /\ UNCHANGED <<tr, l>>

Logged ==
  \/ Is("call") /\ Call(E.m)
  \/ Is("ret") /\ T.rank[E.m] # 0 /\ Return(E.m)
  \* never written: stays accepted, which End or the next tick will not forgive
  \/ Is("ret") /\ T.rank[E.m] = 0 /\ st[E.m] = "called" /\ flen[E.m] > 0 /\ ret' = [ret EXCEPT ![E.m] = TRUE]
     /\ UNCHANGED <<flen, st, queue, pos, conn, cstat, keep, due, endSt, must, errs, faults, errSt>>
  \/ Is("refuse") /\ Refuse(E.m)
  \/ Is("tick") /\ Tick
  \/ Is("conn") /\ Connect(E.c)
  \/ Is("cfail") /\ ConnectFail(E.k, E.p)
  \/ Is("w") /\ E.m > 0 /\ WriteSeg(E.c, E.m, E.a, E.b)
  \/ Is("wfail") /\ WriteFail(E.c, E.k, E.p)
  \/ Is("nobuf") /\ NoBuffer(E.c, E.k)
  \/ Is("close") /\ Close(E.c)
  \/ Is("endcall") /\ EndCall
  \/ Is("endret") /\ EndReturn
  \/ Is("err") /\ ReadErr(E.k)
  \/ Is("noerr") /\ NoErr
  \/ Is("errclosed") /\ ErrClosed
  \/ Is("quiet") /\ Quiescent

TraceNext == IF ~More THEN FALSE
             ELSE IF NeedsQueued THEN Silent
             ELSE Logged /\ UNCHANGED nq
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* a trace is accepted when its last event is consumed after ErrClosed and EndReturn
Done == l = Len(T.ev) + 1 /\ endSt = "done" /\ errSt = "closed"
Report1 == /\ (Done => PrintT(<<"ACC", tr>>))
           /\ (IOEnv.PROGRESS = "1" => PrintT(<<"POS", tr, l>>))
=============================================================================
