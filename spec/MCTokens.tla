------------------------------- MODULE MCTokens -------------------------------
(* Tokens.tla over all short byte strings: the readers give prefixes, go on, and read elements as SData.tla does *)
EXTENDS Tokens, TLC
CONSTANTS Alphabet, MaxLen
VARIABLE b
Init == b = <<>>
Next == Len(b) < MaxLen /\ \E x \in Alphabet : b' = Append(b, x)
Spec == Init /\ [][Next]_b

Ops == {"header", "space", "name", "value"}
TypeOk == \A op \in Ops : LET r == Tok(op, b) IN r.ok \/ r = Refused
\* something is read, and what follows is what was not
Progress == \A op \in Ops : LET r == Tok(op, b) IN r.ok => r.rest \in 2 .. Len(b) + 1
Whole == LET h == Header(b)
             v == Value(b)
             n == Name(b)
         IN  /\ h.ok => h.tok \o From(b, h.rest) = b
             /\ n.ok => n.tok \o <<EQ>> \o From(b, n.rest) = b
             /\ v.ok => <<QUOTE>> \o v.tok \o <<QUOTE>> \o From(b, v.rest) = b
\* a value holds no bare delimiter
Bare == LET v == Value(b) IN v.ok => Len(Unesc(v.tok)) <= Len(v.tok) /\ Value(<<QUOTE>> \o v.tok \o <<QUOTE>>).ok
\* the same readings of an element
Agree == LET e == ReadElem(<<LBR>> \o b \o <<RBR>>, FALSE)
             w == Walk(b)
         IN  b # <<>> => w.ok = e.ok /\ (e.ok => w.id = e.id /\ w.l = e.l)
\* what was encoded is read back
Back == \A x \in {b} : LET w == Walk(<<97, SP, 98, EQ, QUOTE>> \o Esc(x) \o <<QUOTE>>)
                       IN  w.ok /\ Len(w.l) = 1 /\ Unesc(w.l[1][2]) = x
=============================================================================
