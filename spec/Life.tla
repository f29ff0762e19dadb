---------------------------------- MODULE Life ----------------------------------
(***************************************************************************)
(* What senders and receivers hold while they live, and that nothing of it *)
(* is left afterwards.                                                     *)
(*                                                                         *)
(* held is the set of what they hold: goroutines ("flush" of a sender,     *)
(* "accept" of a receiver, "read" of a connection) and descriptors ("out"  *)
(* of a sender, "listen" of a receiver, "conn" of a connection).  The      *)
(* design takes and gives back one thing at a time; at rest, held is a     *)
(* function of the state that users see.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS S, R, C       \* senders, receivers, clients
VARIABLES snd,          \* sender -> "none", "fresh", "up", "down", "ending", "ended"
          peer,         \* "up" or "down": where the senders send to
          rcv,          \* receiver -> "none", "listens", "ending", "over"
          cl,           \* client -> the receiver it is connected to, or 0
          held
lifevars == <<snd, peer, rcv, cl, held>>

Init0 == /\ snd = [s \in S |-> "none"] /\ peer = "down" /\ rcv = [r \in R |-> "none"] /\ cl = [c \in C |-> 0] /\ held = {}

Take(x) == held' = held \cup x
Give(x) == held' = held \ x

\* what is held for a client, whatever the receiver
Conn(c) == {x \in held : x[1] \in {"conn", "read"} /\ x[2] = c}

\* ---- users
Dial(s) == snd[s] \in {"none", "ended"} /\ snd' = [snd EXCEPT ![s] = "fresh"] /\ Take({<<"flush", s>>}) /\ UNCHANGED <<peer, rcv, cl>>
EndSender(s) == snd[s] \in {"fresh", "up", "down"} /\ snd' = [snd EXCEPT ![s] = "ending"] /\ UNCHANGED <<peer, rcv, cl, held>>
PeerUp == peer = "down" /\ peer' = "up" /\ UNCHANGED <<snd, rcv, cl, held>>
PeerDown == peer = "up" /\ peer' = "down" /\ UNCHANGED <<snd, rcv, cl, held>>
Listen(r) == rcv[r] \in {"none", "over"} /\ rcv' = [rcv EXCEPT ![r] = "listens"] /\ Take({<<"listen", r>>, <<"accept", r>>}) /\ UNCHANGED <<snd, peer, cl>>
EndReceiver(r) == rcv[r] = "listens" /\ rcv' = [rcv EXCEPT ![r] = "ending"] /\ UNCHANGED <<snd, peer, cl, held>>
Connect(c, r) == cl[c] = 0 /\ Conn(c) = {} /\ rcv[r] = "listens" /\ cl' = [cl EXCEPT ![c] = r] /\ UNCHANGED <<snd, peer, rcv, held>>
Leave(c) == cl[c] # 0 /\ cl' = [cl EXCEPT ![c] = 0] /\ UNCHANGED <<snd, peer, rcv, held>>

\* ---- the system
SConnect(s) == /\ snd[s] \in {"fresh", "down"} /\ peer = "up" /\ <<"out", s>> \notin held
               /\ snd' = [snd EXCEPT ![s] = "up"] /\ Take({<<"out", s>>}) /\ UNCHANGED <<peer, rcv, cl>>
\* a failure, then the connection is given back
SFail(s) == /\ snd[s] \in {"fresh", "up"} /\ peer = "down" /\ snd' = [snd EXCEPT ![s] = "down"] /\ UNCHANGED <<peer, rcv, cl, held>>
SClose(s) == /\ snd[s] = "down" /\ <<"out", s>> \in held /\ Give({<<"out", s>>}) /\ UNCHANGED <<snd, peer, rcv, cl>>
SEnded(s) == /\ snd[s] = "ending" /\ snd' = [snd EXCEPT ![s] = "ended"] /\ Give({<<"out", s>>, <<"flush", s>>}) /\ UNCHANGED <<peer, rcv, cl>>
Accept(c) == /\ cl[c] # 0 /\ Conn(c) = {} /\ <<"listen", cl[c]>> \in held
             /\ Take({<<"conn", c, cl[c]>>, <<"read", c, cl[c]>>}) /\ UNCHANGED <<snd, peer, rcv, cl>>
CloseConn(c) == cl[c] = 0 /\ Conn(c) # {} /\ Give(Conn(c)) /\ UNCHANGED <<snd, peer, rcv, cl>>
CloseListen(r) == rcv[r] = "ending" /\ <<"listen", r>> \in held /\ Give({<<"listen", r>>}) /\ UNCHANGED <<snd, peer, rcv, cl>>
\* a client that was not accepted yet when the listener was closed
Reset(c) == cl[c] # 0 /\ Conn(c) = {} /\ <<"listen", cl[c]>> \notin held /\ cl' = [cl EXCEPT ![c] = 0] /\ UNCHANGED <<snd, peer, rcv, held>>
Over(r) == /\ rcv[r] = "ending" /\ <<"listen", r>> \notin held /\ \A c \in C : cl[c] # r /\ \A x \in Conn(c) : x[3] # r
           /\ rcv' = [rcv EXCEPT ![r] = "over"] /\ Give({<<"accept", r>>}) /\ UNCHANGED <<snd, peer, cl>>
System == \/ \E s \in S : SConnect(s) \/ SFail(s) \/ SClose(s) \/ SEnded(s)
          \/ \E c \in C : Accept(c) \/ CloseConn(c) \/ Reset(c)
          \/ \E r \in R : CloseListen(r) \/ Over(r)

\* ---- what has to be held, and no more, once the system has nothing to do
Needed == {<<"flush", s>> : s \in {x \in S : snd[x] \in {"fresh", "up", "down", "ending"}}}
          \cup {<<"out", s>> : s \in {x \in S : snd[x] = "up"}}
          \cup {<<"listen", r>> : r \in {x \in R : rcv[x] = "listens"}}
          \cup {<<"accept", r>> : r \in {x \in R : rcv[x] \in {"listens", "ending"}}}
          \cup {<<k, c, cl[c]>> : k \in {"conn", "read"}, c \in {x \in C : cl[x] # 0}}
AtRest == ~ENABLED System
Tight == AtRest => held = Needed
\* a sender has one connection, a client one reader
Clean == AtRest /\ (\A s \in S : snd[s] \in {"none", "ended"}) /\ (\A r \in R : rcv[r] \in {"none", "over"}) /\ (\A c \in C : cl[c] = 0) => held = {}

\* what users see, as counts: what is held depends on nothing else
Num(f, D, v) == Cardinality({x \in D : f[x] = v})
Config == <<peer, Num(snd, S, "fresh"), Num(snd, S, "up"), Num(snd, S, "down"),
            Cardinality({r \in R : rcv[r] = "listens"}), Cardinality({r \in R : rcv[r] = "ending"}), Cardinality({c \in C : cl[c] # 0})>>
=============================================================================
