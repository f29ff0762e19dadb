------------------------------- MODULE CaseMake -------------------------------
(* C25: either something that works or an error *)
EXTENDS Cases, Make

Verdict(c) ==
  CASE c.op = "listen" -> Listen(c.by, c.net, c.a, c.v6)
    [] c.op = "connect" -> Connect(c.by, c.net, c.a, c.v6)
    [] c.op = "dial" -> Dial(c.net)
    [] c.op = "receiver" -> IF c.a = "nil" THEN "err" ELSE "ok"
    [] c.op = "syslog" -> IF c.a = "" THEN "err" ELSE "ok"

MakeOk(c) ==
  LET v == Verdict(c) IN
  \* an error, or something: never both, never none
  /\ c.err # c.got
  /\ (v = "ok" => c.got) /\ (v = "err" => c.err)
  \* what was got works; what was refused leaves nothing behind, and takes nothing away
  /\ (c.got /\ v # "any" => c.works)
  /\ (c.err => c.clean)
  \* a listener of one family isn't one of the other
  /\ ~c.other
  \* again: the same
  /\ c.again
=============================================================================
