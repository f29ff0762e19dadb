-------------------------------- MODULE CaseSD --------------------------------
(* C16: elements made from values *)
EXTENDS Cases, SData

SDOk(c) ==
  LET el == c.el
      e == Encode(el)
      P == Params(el)
  IN  IF Fails(el) THEN c.err
      ELSE /\ ~c.err /\ c.enc = e
           /\ c.direct = e
           \* what a reader finds: one element, with the same content
           /\ c.n = 1 /\ c.re = e /\ c.text = c.want
           /\ LET r == ReadElem(c.enc, TRUE)
              IN  /\ r.ok /\ r.id = el.id /\ Len(r.l) = Len(P)
                  /\ \A i \in 1 .. Len(P) : r.l[i][1] = P[i][1] /\ Unesc(r.l[i][2]) = P[i][2]
=============================================================================
