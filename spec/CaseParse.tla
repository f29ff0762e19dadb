------------------------------ MODULE CaseParse ------------------------------
(* C10: Parse of arbitrary bytes, with or without a transport *)
EXTENDS Cases, Syntax, Text, Priority

Accessors(c, m) ==
  /\ c.host = Clean(m.f[3], MaxHost)
  /\ c.app = Clean(m.f[4], MaxApp)
  /\ c.pid = Clean(m.f[5], MaxProc)
  /\ c.mid = Clean(m.f[6], MaxMsgid)
  /\ c.text = m.text
  /\ WirePrio(m.f[1]) >= 0 => c.prio = WirePrio(m.f[1])
  /\ CanonTime(m.f[2]) => c.ts = m.f[2]

\* the remainder: nothing, or the bytes after the first frame
RestOk(c, next) ==
  IF next = 0 THEN c.rest \in {-1, Len(c.b) + 1}
  ELSE c.rest = next \/ (next = Len(c.b) + 1 /\ c.rest = -1)

ParseOk(c) ==
  LET r == ParseRes(c.t, c.b, c.eof)
      msg == c.d = r.d /\ Accessors(c, ParseMsg(r.d))
  IN  /\ c.same
      /\ CASE r.res = "msg" -> c.res = "msg" /\ msg /\ RestOk(c, r.rest)
           [] r.res = "err" -> c.res = "err" /\ RestOk(c, r.rest)
           [] r.res = "nothing" -> c.res = "nothing" /\ c.rest = -1
           [] r.res = "lost" -> c.res \in {"err", "inc"} /\ c.rest = -1
           [] r.res = "maybe" -> c.res \in {"err", "nothing"} /\ c.rest = -1
           [] r.res = "inc" -> c.res = "inc" /\ RestOk(c, 0)
           [] r.res = "incmsg" -> c.res = "incmsg" /\ msg /\ RestOk(c, 0)
=============================================================================
