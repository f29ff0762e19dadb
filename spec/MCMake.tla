-------------------------------- MODULE MCMake --------------------------------
(* the verdicts of Make.tla agree with each other, for every network and class of address *)
EXTENDS Make
CONSTANTS Nets, Classes
VARIABLES net, a, v6
Init == net \in Nets /\ a \in Classes /\ v6 \in BOOLEAN
Spec == Init /\ [][FALSE]_<<net, a, v6>>
V == {"ok", "err", "any"}
TypeOk == /\ \A by \in {"guess", "tcp", "unix", "unixgram"} : Listen(by, net, a, v6) \in V
          /\ \A by \in {"tcp", "local", "stdio", "invalid"} : Connect(by, net, a, v6) \in V
\* guessing is the same as knowing, and what is no network is refused
Guess == /\ net \in Tcp => Listen("guess", net, a, v6) = Listen("tcp", net, a, v6)
         /\ net \in Local => Listen("guess", net, a, v6) = Listen(net, net, a, v6)
         /\ net \notin Tcp \cup Local => Listen("guess", net, a, v6) = "err"
\* what can't be dialed can't be connected to
Dialed == Dial(net) = "err" => Connect("tcp", net, a, v6) = "err"
\* the network without a family takes what one of the families takes
Families == \A n \in {"tcp4", "tcp6"} : /\ ListenTcp(n, a, v6) = "ok" => ListenTcp("tcp", a, v6) = "ok"
                                        /\ ConnectTcp(n, a, v6) = "ok" => ConnectTcp("tcp", a, v6) = "ok"
=============================================================================
