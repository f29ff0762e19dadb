------------------------------ MODULE MCEndToEnd ------------------------------
(***************************************************************************)
(* Senders, connections, the socket and the receiver, step by step, against *)
(* what EndToEnd.tla allows.                                                *)
(***************************************************************************)
EXTENDS EndToEnd
CONSTANTS
  Max,   \* messages of a lane
  Kills, \* ends of the receiver
  Kind,  \* "unix": a write to a connection whose peer is gone fails. "tcp": the first such write succeeds, in vain
  Old    \* "": as it must be. "inflight": the receiver ends although messages are in flight.
         \* "partial": the rest of a message whose write was interrupted is sent without its start.
         \* "again": everything is sent again after an error. "lost": the queue is dropped at an error.
         \* "swap": what could not be written goes behind what was queued meanwhile
VARIABLES queue,  \* sender -> messages
          conn,   \* sender -> 0 or the receiver (its number) it's connected to
          wire,   \* sender -> messages in the socket
          era,    \* number of the receiver
          warned, \* sender -> the first write in vain was done
          busy,   \* sender -> messages taken out of the queue (only for "swap")
          bad,    \* a message that was not intact
          cuts    \* writes that were interrupted
vars == <<evars, queue, conn, wire, era, warned, busy, bad, cuts>>
impl == <<queue, conn, wire, era, warned, busy, bad, cuts>>

Init == /\ \E a \in [1 .. 2 -> BOOLEAN] : E2EInit([auto |-> a, lanes |-> <<2, 1>>])
        /\ queue = [s \in 1 .. 2 |-> <<>>] /\ conn = [s \in 1 .. 2 |-> 0] /\ wire = [s \in 1 .. 2 |-> <<>>]
        /\ era = 0 /\ warned = [s \in 1 .. 2 |-> FALSE] /\ busy = [s \in 1 .. 2 |-> <<>>] /\ bad = FALSE /\ cuts = 0

Start == Up /\ era' = era + 1 /\ UNCHANGED <<queue, conn, wire, warned, busy, bad, cuts>>
Kill == /\ era <= Kills
        /\ IF Old = "inflight" THEN up /\ up' = FALSE /\ UNCHANGED <<ec, st, cnt, fin, need, rcv>> ELSE Down
        /\ wire' = [s \in Senders |-> <<>>]
        /\ UNCHANGED <<queue, conn, era, warned, busy, bad, cuts>>
Open(s) == Dial(s) /\ UNCHANGED impl
LogCall(s, g) == cnt[s][g] < Max /\ Call(s, g) /\ queue' = [queue EXCEPT ![s] = Append(@, <<s, g, cnt'[s][g]>>)]
                 /\ UNCHANGED <<conn, wire, era, warned, busy, bad, cuts>>
LogRet(s, g) == Ret(s, g) /\ UNCHANGED impl
\* a tick, or End
MayFlush(s) == (st[s] = "open" /\ ec.auto[s]) \/ st[s] = "ending"
Connect(s) == /\ MayFlush(s) /\ conn[s] = 0 /\ up /\ (st[s] = "ending" => queue[s] # <<>>)
              /\ conn' = [conn EXCEPT ![s] = era] /\ warned' = [warned EXCEPT ![s] = FALSE]
              /\ UNCHANGED <<evars, queue, wire, era, busy, bad, cuts>>
Take(s) == /\ Old = "swap" /\ MayFlush(s) /\ conn[s] # 0 /\ busy[s] = <<>> /\ queue[s] # <<>>
           /\ busy' = [busy EXCEPT ![s] = queue[s]] /\ queue' = [queue EXCEPT ![s] = <<>>]
           /\ UNCHANGED <<evars, conn, wire, era, warned, bad, cuts>>
Q(s) == IF Old = "swap" THEN busy[s] ELSE queue[s]
SetQ(s, q, back) == IF Old = "swap" THEN busy' = [busy EXCEPT ![s] = <<>>] /\ queue' = [queue EXCEPT ![s] = @ \o back \o q]
                    ELSE queue' = [queue EXCEPT ![s] = back \o q] /\ UNCHANGED busy
\* the first n messages
Write(s) == /\ MayFlush(s) /\ conn[s] # 0 /\ Q(s) # <<>>
            /\ IF up /\ conn[s] = era
               THEN /\ wire' = [wire EXCEPT ![s] = @ \o Q(s)] /\ SetQ(s, <<>>, <<>>)
                    /\ UNCHANGED <<evars, conn, era, warned, bad, cuts>>
               ELSE IF Kind = "tcp" /\ ~warned[s]
               THEN /\ warned' = [warned EXCEPT ![s] = TRUE] /\ SetQ(s, <<>>, <<>>) /\ UNCHANGED <<evars, conn, wire, era, bad, cuts>>
               ELSE /\ conn' = [conn EXCEPT ![s] = 0] /\ SetQ(s, IF Old = "lost" THEN <<>> ELSE Q(s), <<>>)
                    /\ UNCHANGED <<evars, wire, era, warned, bad, cuts>>
\* only a part is written: n messages, and maybe the start of another one; the receiver is restarted right then
Cut(s, n) == /\ cuts < Kills /\ cuts' = cuts + 1 /\ MayFlush(s) /\ conn[s] = era /\ up /\ n < Len(Q(s))
             /\ wire' = [wire EXCEPT ![s] = @ \o SubSeq(Q(s), 1, n)]
             /\ conn' = [conn EXCEPT ![s] = 0]
             /\ SetQ(s, IF Old = "again" THEN Q(s) ELSE IF Old = "partial" THEN <<(<<0, 0, 0>>)>> \o SubSeq(Q(s), n + 2, Len(Q(s))) ELSE SubSeq(Q(s), n + 1, Len(Q(s))), <<>>)
             /\ UNCHANGED <<evars, era, warned, bad>>
\* a new connection of a sender is read after the former one
Deliver(s) == /\ up /\ wire[s] # <<>>
              /\ wire' = [wire EXCEPT ![s] = Tail(@)]
              /\ LET m == Head(wire[s]) IN
                   IF m[1] # 0 /\ m[3] = rcv[s][m[2]] + 1 /\ (\A h \in Lanes(s) : rcv[s][h] >= need[m][h])
                   THEN Receive(s, m[2], m[3]) /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED evars
              /\ UNCHANGED <<queue, conn, era, warned, busy, cuts>>
End(s) == EndCall(s) /\ UNCHANGED impl
Ends(s) == st[s] = "ending" /\ queue[s] = <<>> /\ busy[s] = <<>> /\ EndRet(s) /\ UNCHANGED impl
Work(s) == Connect(s) \/ Take(s) \/ Write(s) \/ Deliver(s) \/ Ends(s)
Next == \/ Start \/ Kill
        \/ \E s \in Senders : Open(s) \/ End(s) \/ Work(s) \/ \E n \in 0 .. 1 : Cut(s, n)
        \/ \E s \in Senders : \E g \in Lanes(s) : LogCall(s, g) \/ LogRet(s, g)
Spec == Init /\ [][Next]_vars /\ \A s \in 1 .. 2 : WF_vars(Connect(s)) /\ WF_vars(Take(s)) /\ WF_vars(Write(s)) /\ SF_vars(Deliver(s)) /\ WF_vars(Ends(s))

Intact == ~bad
NoMore == \A s \in Senders, g \in 1 .. 2 : g \in Lanes(s) => rcv[s][g] <= cnt[s][g]
\* a sender whose End returned: everything is received or in the socket
Kept == \A s \in Senders : st[s] = "ended" =>
          \A g \in Lanes(s) : rcv[s][g] + Cardinality({i \in DOMAIN wire[s] : wire[s][i][2] = g}) >= cnt[s][g]
\* and with the receiver there everything comes
Comes == \A s \in 1 .. 2 : (<>[]up /\ []<>(st[s] # "new" /\ (ec.auto[s] \/ st[s] \in {"ending", "ended"}))) => []<>(Delivered(s))
=============================================================================
