------------------------------- MODULE RealEnd -------------------------------
(***************************************************************************)
(* The end of a receiver whose listener is a real one: clients that        *)
(* connect, send and leave, and what Receive returns.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES net,    \* "unix", "unixgram", "tcp", "tcp4", "tcp6"
          run,    \* "no", "listens", "closed" (the listener, by its user), "ended"
          cl,     \* client -> "none", "open", "closed", "refused"
          snt,    \* client -> messages sent
          got,    \* client -> messages received
          over    \* Receive said that there's nothing more
revars == <<net, run, cl, snt, got, over>>
Clients == 1 .. 6
REInit(n) == net = n /\ run = "no" /\ cl = [c \in Clients |-> "none"] /\ snt = [c \in Clients |-> 0] /\ got = [c \in Clients |-> 0] /\ over = FALSE
Listen == run = "no" /\ run' = "listens" /\ UNCHANGED <<net, cl, snt, got, over>>
\* the listener is closed when End returns
Connect(c, ok) == /\ cl[c] = "none" /\ run # "no" /\ ok = (run = "listens")
                  /\ cl' = [cl EXCEPT ![c] = IF ok THEN "open" ELSE "refused"]
                  /\ UNCHANGED <<net, run, snt, got, over>>
Say(c, k) == cl[c] = "open" /\ snt' = [snt EXCEPT ![c] = @ + k] /\ UNCHANGED <<net, run, cl, got, over>>
Leave(c) == cl[c] = "open" /\ cl' = [cl EXCEPT ![c] = "closed"] /\ UNCHANGED <<net, run, snt, got, over>>
Receive(c, k) == ~over /\ k = got[c] + 1 /\ k <= snt[c] /\ got' = [got EXCEPT ![c] = k] /\ UNCHANGED <<net, run, cl, snt, over>>
\* the user may close the listener, before End or after
Close == run # "no" /\ run' = (IF run = "listens" THEN "closed" ELSE run) /\ UNCHANGED <<net, cl, snt, got, over>>
End == run \in {"listens", "closed"} /\ run' = "ended" /\ UNCHANGED <<net, cl, snt, got, over>>
\* a connection of which something was received was accepted: all of it is received.
\* nothing is required of those that could still be waiting to be accepted
Served(c) == got[c] > 0 => got[c] = snt[c]
\* datagrams have no connections: the socket itself is finished with End
Finished == run = "ended" /\ (net = "unixgram" \/ \A c \in Clients : cl[c] # "open")
Over == /\ ~over
        /\ run = "ended" /\ (net # "unixgram" => \A c \in Clients : (cl[c] = "open" => got[c] = 0) /\ Served(c))
        /\ over' = TRUE /\ UNCHANGED <<net, run, cl, snt, got>>
\* the user waited for the end, in vain
NotOver == ~over /\ ~Finished /\ UNCHANGED revars
\* the user waited for what was sent
Sync == (run = "listens" => \A c \in Clients : got[c] = snt[c]) /\ UNCHANGED revars
\* ... after End: of what was accepted for sure
Settle == (\A c \in Clients : Served(c)) /\ UNCHANGED revars
=============================================================================
