------------------------------- MODULE MCLife -------------------------------
EXTENDS Life
User == \/ \E s \in S : Dial(s) \/ EndSender(s)
        \/ PeerUp \/ PeerDown
        \/ \E r \in R : Listen(r) \/ EndReceiver(r)
        \/ \E c \in C : Leave(c) \/ \E r \in R : Connect(c, r)
Next == User \/ System
Spec == Init0 /\ [][Next]_lifevars
Fair == /\ \A s \in S : WF_lifevars(SEnded(s))
        /\ \A c \in C : WF_lifevars(CloseConn(c)) /\ WF_lifevars(Reset(c))
        /\ \A r \in R : WF_lifevars(CloseListen(r)) /\ WF_lifevars(Over(r))
LiveSpec == Spec /\ Fair

\* descriptors of senders and receivers never exceed what is in use or about to be given back
Bounded == Cardinality({x \in held : x[1] = "out"}) <= Cardinality({s \in S : snd[s] \notin {"none", "ended"}})
\* the same to the users: as much is held
Rest == AtRest => Cardinality(held) = Config[2] + 2 * Config[3] + Config[4] + 2 * Config[5] + Config[6] + 2 * Config[7]
\* what has ended comes to rest, when its users have left
Gone == /\ \A s \in S : (snd[s] = "ending") ~> (snd[s] # "ending")
        /\ \A r \in R : (rcv[r] = "ending" /\ \A c \in C : cl[c] # r /\ \A x \in Conn(c) : x[3] # r) ~> (rcv[r] # "ending" \/ \E c \in C : cl[c] = r)
=============================================================================
