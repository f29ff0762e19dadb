---------------------------- MODULE TraceReceiver ----------------------------
(* Are the recorded executions of the real Receiver behaviours of Receiver.tla? *)
(* Traces: t (transport), r (receiving goroutines), streams (bytes given to each *)
(* connection) or items (for streams that are too large), net (the network of    *)
(* real connections, whose closing and whose listener can't be observed: they    *)
(* are closed as soon as they can be), ev (events).                              *)
EXTENDS Receiver, Syntax, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, seen   \* trace, position, contents of the received messages
tvars == <<rvars, tr, l, seen>>

T == Traces[tr]
E == T.ev[l]
More == l <= Len(T.ev)
Is(e) == More /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tr

TraceItems(x) == IF x.large THEN x.items
                 ELSE [c \in 1 .. Len(x.streams) |-> Items(x.t, x.streams[c])]

TraceInit == \E i \in 1 .. Len(Traces) : tr = i /\ l = 1 /\ seen = <<>> /\ RInit(TraceItems(Traces[i]))

Received == \E c \in Conns : \E i \in DOMAIN items[c] :
              Matches(items[c][i], E.d, E.err, E.inc) /\ Recv(c, i, T.r)

Logged ==
  \/ Is("acall") /\ AcceptCall
  \/ Is("accept") /\ Accept(E.c)
  \/ Is("afail") /\ AcceptFail(E.k, E.p, E.sure, E.w)
  \/ Is("feed") /\ Feed(E.c, E.n)
  \/ Is("none") /\ None(E.c)
  \/ Is("eof") /\ Eof(E.c)
  \/ Is("rfail") /\ ReadFail(E.c, E.k, E.p, E.w)
  \/ Is("close") /\ Close(E.c)
  \/ Is("recvend") /\ RecvEnd(T.r)
  \/ Is("rendcall") /\ EndCall
  \/ Is("rendret") /\ EndReturn
  \/ Is("lclose") /\ CloseListener
  \/ Is("rerr") /\ ReadErr(E.k)
  \/ Is("noerr") /\ NoErr
  \/ Is("quiet") /\ Quiescent

TraceNext == /\ More
             /\ \/ Logged /\ UNCHANGED seen
                \/ Is("recv") /\ Received /\ seen' = Append(seen, E.d)
                \* C08: a message never changes once it was received
                \/ Is("recheck") /\ seen[E.k] = E.d /\ UNCHANGED <<rvars, seen>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* (the end of a unixgram receiver isn't observed here)
Done == l = Len(T.ev) + 1 /\ (T.net = "unixgram" \/ (over /\ endSt = "done"))
Report1 == /\ (Done => PrintT(<<"ACC", tr>>))
           /\ (IOEnv.PROGRESS = "1" => PrintT(<<"POS", tr, l>>))
=============================================================================
