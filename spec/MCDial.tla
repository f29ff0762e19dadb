------------------------------- MODULE MCDial -------------------------------
(***************************************************************************)
(* A Sender made by Dial, step by step (ticks of the flush delay, attempts *)
(* to connect, writes, the drain at End) against what Dial.tla allows, for *)
(* every network, transport, delay around the limit and kind of peer.      *)
(***************************************************************************)
EXTENDS Dial
CONSTANTS Old    \* "": as it must be. "always": a ticker with every delay. "below": none with 1001.
                 \* "common": always the common transport. "giveup": End without connecting
VARIABLES delay, queue, conn, errs
vars == <<dvars, delay, queue, conn, errs>>

Peers == {"none", "unix", "unixgram", "tcp4", "tcp6", "stdio"}
Nets == Networks \cup {"udp", ""}
AddrOf(n) == IF n = "stdio" THEN {"=stdout:", "=x"} ELSE IF n \in {"tcp", "tcp4", "tcp6"} THEN {"ip"} ELSE {"path"}
Init == \E n \in Nets, t \in {"nil", "nul", "lf", "rfc"}, d \in {-1, 0, 999, 1000, 1001, 2000}, p \in Peers, f \in SUBSET {4, 6} :
          \E a \in AddrOf(n) :
          /\ n = "stdio" <=> p = "stdio"
          /\ n \in {"tcp", "tcp4", "tcp6"} \/ f = {}
          /\ DialInit([net |-> n, tr |-> t, auto |-> d > 1000, peer |-> p, addr |-> a, fams |-> f, late |-> TRUE])
          /\ delay = d /\ queue = <<>> /\ conn = FALSE /\ errs = 0

Ticks == CASE Old = "always" -> TRUE [] Old = "below" -> delay > 1001 [] OTHER -> delay > 1000
Coded == IF cfg.tr = "nil" \/ Old = "common" THEN Common(cfg.net) ELSE cfg.tr
Call == Dialed(cfg.net \in Networks) /\ UNCHANGED <<delay, queue, conn, errs>>
Listen == cfg.peer # "none" /\ Up /\ UNCHANGED <<delay, queue, conn, errs>>
Log == /\ Len(sent) < 2 /\ Send(<<97>>)
       /\ queue' = Append(queue, Frame(Coded, <<97>>)) /\ UNCHANGED <<delay, conn, errs>>
Connect == /\ ~conn /\ UNCHANGED <<dvars, delay, queue>>
           /\ IF Reach THEN conn' = TRUE /\ UNCHANGED errs ELSE errs' = 1 /\ UNCHANGED conn
Write == /\ conn /\ queue # <<>> /\ queue' = Tail(queue)
         /\ out' = out + (IF Datagrams THEN 1 ELSE Len(Head(queue)))
         /\ UNCHANGED <<cfg, st, sent, up, delay, conn, errs>>
Flush == ((st = "dialed" /\ Ticks) \/ (st = "ending" /\ queue # <<>>)) /\ (Connect \/ Write)
Read == errs = 1 /\ errs' = 0 /\ UNCHANGED <<dvars, delay, queue, conn>>
End == EndCall /\ UNCHANGED <<delay, queue, conn, errs>>
Returns == /\ st = "ending" /\ (queue = <<>> \/ (Old = "giveup" /\ ~conn))
           /\ st' = "ended" /\ UNCHANGED <<cfg, sent, out, up, delay, queue, conn, errs>>
Next == Call \/ Listen \/ Log \/ Flush \/ Read \/ End \/ Returns
Spec == Init /\ [][Next]_vars /\ WF_vars(Flush /\ vars' # vars) /\ WF_vars(Returns)

\* every step is one of Dial.tla
Allowed == [][\/ Up
              \/ \E ok \in BOOLEAN : Dialed(ok)
              \/ Send(<<97>>)
              \/ \E d \in {Frame(Coded, <<97>>)} : \E on \in {"stdout:", "stderr:"} : Data(d, on)
              \/ EndCall \/ EndRet]_dvars
ErrsOnlyThen == errs = 1 => st # "refused"
\* what is waited for comes
AutoComes == (st = "dialed" /\ cfg.auto /\ Reach) ~> (Everything \/ st # "dialed")
EndComes == (st = "ending" /\ (Reach \/ sent = <<>>)) ~> (st = "ended")
ErrComes == (st = "dialed" /\ cfg.auto /\ ~conn) ~> (errs = 1 \/ conn \/ st # "dialed")
=============================================================================
