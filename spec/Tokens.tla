-------------------------------- MODULE Tokens --------------------------------
(***************************************************************************)
(* The readers that decoders of structured data elements are made of:      *)
(* NextHeader, NextNonSpace, NextSDName and NextSDValue.  Each takes bytes *)
(* and gives a token and what follows it (the position, from 1), or an     *)
(* error.  Walk applies them in turn to the inside of an element, as a     *)
(* decoder does; on every well-formed element that is the reading of it.   *)
(***************************************************************************)
EXTENDS SData

Refused == [ok |-> FALSE, tok |-> <<>>, rest |-> -1]
Got(b, to, next) == [ok |-> TRUE, tok |-> SubSeq(b, 1, to), rest |-> next]

\* bytes that are no part of a name, and those that RFC 5424 does not have in names but readers may accept
Ctl == 0 .. 31
Open == 128 .. 255
Delims == {EQ, RBR, QUOTE, 127} \cup Ctl

Header(b) ==
  LET k == FindAny(b, Delims \cup {SP}, 1)
  IN  CASE b = <<>> -> Refused
        [] k = 0 -> Got(b, Len(b), Len(b) + 1)
        [] k > 1 /\ b[k] = SP -> Got(b, k - 1, k)
        [] OTHER -> Refused

NonSpace(b) ==
  LET k == FindAny(b, (0 .. 255) \ {SP}, 1)
  IN  IF b = <<>> \/ b[1] # SP \/ k = 0 THEN Refused ELSE [ok |-> TRUE, tok |-> <<>>, rest |-> k]

Name(b) ==
  LET k == FindAny(b, Delims \cup {SP}, 1)
  IN  IF k = 0 \/ b[k] # EQ THEN Refused ELSE Got(b, k - 1, k + 1)

Value(b) ==
  LET q == ValueEnd(b, 2)
  IN  IF Len(b) < 2 \/ b[1] # QUOTE \/ q = 0 THEN Refused
      ELSE [ok |-> TRUE, tok |-> SubSeq(b, 2, q - 1), rest |-> q + 1]

Tok(op, b) == CASE op = "header" -> Header(b) [] op = "space" -> NonSpace(b) [] op = "name" -> Name(b) [] op = "value" -> Value(b)

\* what may be refused as well: an empty name, a name that nothing can follow, bytes above 126
Left(op, b, r) == \/ op = "name" /\ r.ok /\ (r.tok = <<>> \/ Len(b) < 4)
                  \/ op \in {"name", "header"} /\ r.ok /\ Has(r.tok, Open)

------------------------------------------------------------------------------
NoWalk == [ok |-> FALSE, id |-> <<>>, l |-> <<>>]

RECURSIVE WalkParams(_)
WalkParams(b) ==
  IF b = <<>> THEN [ok |-> TRUE, l |-> <<>>]
  ELSE LET s == NonSpace(b) IN
       IF ~s.ok THEN [ok |-> FALSE, l |-> <<>>]
       ELSE LET n == Name(From(b, s.rest)) IN
            IF ~n.ok \/ n.tok = <<>> \/ Has(n.tok, Open) THEN [ok |-> FALSE, l |-> <<>>]
            ELSE LET v == Value(From(b, s.rest + n.rest - 1)) IN
                 IF ~v.ok THEN [ok |-> FALSE, l |-> <<>>]
                 ELSE LET r == WalkParams(From(b, s.rest + n.rest + v.rest - 2))
                      IN  [ok |-> r.ok, l |-> << <<n.tok, v.tok>> >> \o r.l]

\* the inside of an element
Walk(b) ==
  LET h == Header(b) IN
  IF ~h.ok \/ Has(h.tok, Open) THEN NoWalk
  ELSE LET r == WalkParams(From(b, h.rest))
       IN  IF r.ok THEN [ok |-> TRUE, id |-> h.tok, l |-> r.l] ELSE NoWalk
=============================================================================
