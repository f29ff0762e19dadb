-------------------------------- MODULE CaseTQ --------------------------------
(* C17 *)
EXTENDS Cases, SData

Same(c, q) == c.found /\ c.tz = q.tz /\ c.sync = q.sync /\ c.has = q.has /\ (q.has => c.acc = q.acc)
TQOk(c) ==
  CASE c.op = "enc" -> LET q == c.q IN
         IF TQValid(q) THEN ~c.err /\ c.valid /\ c.out = TQEncode(q) /\ Same(c, q) /\ c.parsed
         ELSE c.err /\ ~c.valid
    [] c.op = "dec" -> LET r == TQRead(c.b) IN
         CASE r.is = "no" -> ~c.found /\ ~c.parsed
           [] r.is = "yes" -> Same(c, r.q) /\ c.parsed /\ c.out = TQEncode(r.q)
           [] r.is = "any" -> TRUE
=============================================================================
