---------------------------------- MODULE Make ----------------------------------
(***************************************************************************)
(* What may be made of a network and an address.  Addresses are given by   *)
(* their class, see p_make.py.  A verdict is "ok", "err", or "any" where   *)
(* nothing is promised.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Tcp == {"tcp", "tcp4", "tcp6"}
Local == {"unix", "unixgram"}

\* addresses that are no address of a TCP port
NotTcp == {"noport", "badport", "bigport", "negport", "junk", "brackets", "path"}

\* a socket that listens, on this machine: v6 tells whether it has IPv6
ListenTcp(net, a, v6) ==
  CASE a \in NotTcp -> "err"
    [] a \in {"used", "foreign"} -> "err"
    [] a = "ip4" -> IF net = "tcp6" THEN "err" ELSE "ok"
    [] a = "ip6" -> IF net = "tcp4" \/ ~v6 THEN "err" ELSE "ok"
    [] a = "all" -> IF net = "tcp6" /\ ~v6 THEN "any" ELSE "ok"
    [] OTHER -> "any"

\* a socket at a path: nothing there, something that is not a socket, a directory that isn't there
ListenPath(a) ==
  CASE a = "free" -> "ok"
    [] a \in {"file", "dir", "nodir", "longpath", "infile"} -> "err"
    [] OTHER -> "any"

\* by: "guess" GuessListener, "tcp" TCPListener, "unix" UnixListener, "unixgram" UnixgramListener
Listen(by, net, a, v6) ==
  CASE by = "unix" \/ (by = "guess" /\ net = "unix") -> ListenPath(a)
    [] by = "unixgram" \/ (by = "guess" /\ net = "unixgram") -> ListenPath(a)
    [] net \in Tcp /\ by \in {"guess", "tcp"} -> ListenTcp(net, a, v6)
    [] OTHER -> "err"

\* connecting: a peer listens where the class says so
ConnectTcp(net, a, v6) ==
  CASE net \notin Tcp -> "err"
    [] a \in NotTcp \/ a \in {"empty", "refused"} -> "err"
    [] a = "peer4" -> IF net = "tcp6" THEN "err" ELSE "ok"
    [] a = "peer6" -> IF net = "tcp4" \/ ~v6 THEN "err" ELSE "ok"
    [] OTHER -> "any"

ConnectLocal(net, a) ==
  CASE net \notin Local \cup {""} -> IF a \in {"empty"} THEN "any" ELSE "err"
    [] a \in {"free", "file", "dir", "nodir", "longpath", "infile", "staleunix", "stalegram"} -> "err"
    [] a = "peerunix" -> IF net = "unixgram" THEN "err" ELSE "ok"
    [] a = "peergram" -> IF net = "unix" THEN "err" ELSE "ok"
    [] OTHER -> "any"

ConnectStdio(a) == IF a \in {"stdout:", "stderr:"} THEN "ok" ELSE "err"

Connect(by, net, a, v6) ==
  CASE by = "tcp" -> ConnectTcp(net, a, v6)
    [] by = "local" -> ConnectLocal(net, a)
    [] by = "stdio" -> ConnectStdio(a)
    [] by = "invalid" -> "err"

\* Dial refuses what isn't a network at once; the rest comes on the error channel
DialNets == Tcp \cup Local \cup {"local", "stdio"}
Dial(net) == IF net \in DialNets THEN "ok" ELSE "err"
=============================================================================
