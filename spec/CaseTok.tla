-------------------------------- MODULE CaseTok --------------------------------
(* C24: the readers of the tokens of structured data, see Tokens.tla *)
EXTENDS Cases, Tokens

\* an error is without a remainder
Same(c, r) == IF r.ok THEN ~c.err /\ c.tok = r.tok /\ c.rest = r.rest ELSE c.err /\ c.rest = -1

TokOk(c) ==
  /\ c.same
  /\ CASE c.op = "walk" -> LET w == Walk(c.b) IN
            /\ w.ok => ~c.err /\ c.id = w.id /\ c.l = w.l
            /\ (~w.ok /\ ~Has(c.b, Open)) => (c.err \/ \E k \in 1 .. Len(c.l) : c.l[k][1] = <<>>)
       [] OTHER -> LET r == Tok(c.op, c.b) IN Same(c, r) \/ (Left(c.op, c.b, r) /\ Same(c, Refused))
=============================================================================
