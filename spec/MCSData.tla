------------------------------- MODULE MCSData -------------------------------
(* Encoding and reading elements are inverse of each other, and an element can't be *)
(* left by any value: checked for all values over an alphabet                        *)
EXTENDS SData
CONSTANTS MaxVal, Alphabet
VARIABLE v, w
Init == v = <<>> /\ w \in {<<>>, <<RBR>>, <<BACKSL>>, <<QUOTE, SP>>}
Next == Len(v) < MaxVal /\ (\E a \in Alphabet : v' = Append(v, a)) /\ UNCHANGED w
Spec == Init /\ [][Next]_<<v, w>>
Name == <<97>>
P == << <<Name, v>>, <<<<98>>, w>> >>
Id == <<105>>
Enc == EncElem(Id, P)
RoundTrip == LET r == ReadElem(Enc, TRUE) IN
             r.ok /\ r.id = Id /\ Len(r.l) = 2 /\ \A i \in 1 .. 2 : r.l[i][1] = P[i][1] /\ Unesc(r.l[i][2]) = P[i][2]
\* within a message, whatever follows
Contained == \A tail \in {<<>>, <<SP>>, <<SP, 120>>, <<SP, LBR, RBR>>} :
  LET m == ParseMsg(<<60, 49, 62, 49, SP, DASH, SP, 104, SP, 97, SP, 112, SP, 109, SP>> \o Enc \o Enc \o tail)
  IN  m.ok /\ m.sd = <<Enc, Enc>> /\ m.text = (IF tail = <<>> THEN <<>> ELSE Tail(tail))
Reescape == Unesc(Esc(v)) = v
\* a strictly well formed element is one for the parser of messages
Lexical == \A x \in {<<LBR>> \o v \o <<RBR>>} : WellFormedElem(x) => ElemEnd(x, 1) = Len(x)
=============================================================================
