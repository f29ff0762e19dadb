-------------------------------- MODULE Dial --------------------------------
(***************************************************************************)
(* What a user of Dial sees: networks, framing, flush delay, destinations. *)
(***************************************************************************)
EXTENDS Text, FiniteSets, TLC

Networks == {"stdio", "local", "unix", "unixgram", "tcp", "tcp4", "tcp6"}
Common(net) == IF net \in {"local", "unix", "unixgram"} THEN "nul" ELSE "lf"
Frame(t, d) == CASE t = "nul" -> Append(d, 0)
                 [] t = "lf" -> Append(d, 10)
                 [] t = "rfc" -> Dec(Len(d)) \o <<32>> \o d

VARIABLES
  cfg,     \* net, tr ("nil" or a transport), auto, peer, addr, fams
  st,      \* "start", "refused", "dialed", "ending", "ended"
  sent,    \* frames
  out,     \* bytes (datagrams) that the peer got
  up       \* the peer listens
dvars == <<cfg, st, sent, out, up>>

DialInit(c) == cfg = c /\ st = "start" /\ sent = <<>> /\ out = 0 /\ up = (c.peer = "stdio")

Tr == IF cfg.tr = "nil" THEN Common(cfg.net) ELSE cfg.tr
\* can the destination be reached, once the peer listens?
Fam(p) == IF p = "tcp4" THEN 4 ELSE 6
Match == CASE cfg.net = "stdio" -> cfg.addr \in {"=stdout:", "=stderr:"}
           [] cfg.net = "local" -> cfg.peer \in {"unix", "unixgram"} /\ cfg.addr = "path"
           [] cfg.net \in {"unix", "unixgram"} -> cfg.peer = cfg.net /\ cfg.addr = "path"
           [] cfg.net = "tcp" -> cfg.peer \in {"tcp4", "tcp6"} /\ Fam(cfg.peer) \in cfg.fams
           [] cfg.net \in {"tcp4", "tcp6"} -> cfg.peer = cfg.net /\ Fam(cfg.peer) \in cfg.fams
           [] OTHER -> FALSE
Reach == up /\ Match
Datagrams == cfg.peer = "unixgram"

RECURSIVE Cat(_, _)
Cat(s, k) == IF k > Len(s) THEN <<>> ELSE s[k] \o Cat(s, k + 1)
All == Cat(sent, 1)
Everything == out = IF Datagrams THEN Len(sent) ELSE Len(All)

Up == ~up /\ up' = TRUE /\ UNCHANGED <<cfg, st, sent, out>>
\* unknown networks are refused at once, everything else is a matter of connecting
Dialed(ok) == /\ st = "start" /\ ok = (cfg.net \in Networks)
              /\ st' = IF ok THEN "dialed" ELSE "refused"
              /\ UNCHANGED <<cfg, sent, out, up>>
Send(d) == st = "dialed" /\ sent' = Append(sent, Frame(Tr, d)) /\ UNCHANGED <<cfg, st, out, up>>
\* without End messages go out only with a flush delay
MayFlush == (st = "dialed" /\ cfg.auto) \/ st = "ending"
Data(d, on) ==
  /\ MayFlush /\ Reach
  /\ cfg.net = "stdio" => "=" \o on = cfg.addr
  /\ IF Datagrams THEN out < Len(sent) /\ d = sent[out + 1] /\ out' = out + 1
     ELSE LET a == All IN out + Len(d) <= Len(a) /\ d = SubSeq(a, out + 1, out + Len(d)) /\ out' = out + Len(d)
  /\ UNCHANGED <<cfg, st, sent, up>>
\* the user waited: everything must be there
Sync == /\ st \in {"dialed", "ended"} /\ ((cfg.auto /\ Reach) => Everything) /\ UNCHANGED dvars
Idle == UNCHANGED dvars
\* a message took less than a small multiple of the flush delay
Late(ok) == cfg.auto /\ Reach /\ ok /\ UNCHANGED dvars
\* errors come from destinations that can't be reached (they may have been published before it could)
Err == st \in {"dialed", "ending"} /\ (~Match \/ cfg.late \/ ~Reach) /\ UNCHANGED dvars
\* no error although the user waited for one
NoErr == ~((MayFlush /\ sent # <<>>) /\ ~Reach) /\ UNCHANGED dvars
EndCall == st = "dialed" /\ st' = "ending" /\ UNCHANGED <<cfg, sent, out, up>>
EndRet == /\ st = "ending" /\ (sent # <<>> => Reach) /\ Everything
          /\ st' = "ended" /\ UNCHANGED <<cfg, sent, out, up>>
=============================================================================
