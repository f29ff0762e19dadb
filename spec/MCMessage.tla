------------------------------ MODULE MCMessage ------------------------------
(* Encoding and parsing are inverse of each other for every message over an alphabet, *)
(* whatever the strings it was made of; the calendar is right                         *)
EXTENDS Message
CONSTANTS Alphabet, MaxLen, Years
VARIABLES s, w
B(c) == <<c>>
Tz == { <<>>, << [k |-> "raw", b |-> <<LBR, 97, RBR>>] >>,
        << [k |-> "tq", q |-> [tz |-> TRUE, sync |-> TRUE, has |-> TRUE, acc |-> <<49>>]], [k |-> "raw", b |-> <<LBR, 97, SP, 98, EQ, QUOTE, BACKSL, RBR, SP, BACKSL, QUOTE, QUOTE, RBR>>] >> }
Els == { << [k |-> "el", el |-> [kind |-> "map", id |-> B(105), entries |-> << [name |-> B(98), v |-> [k |-> "s", b |-> x, str |-> TRUE]] >>]] >> : x \in {s, w} }
Init == s = <<>> /\ w \in {<<>>, <<SP>>, <<DASH>>, <<LBR, 120>>} /\ vals = <<>>
Next == Len(s) < MaxLen /\ (\E a \in Alphabet : s' = Append(s, a)) /\ UNCHANGED <<w, vals>>
Spec == Init /\ [][Next]_<<s, w, vals>>
Kinds == { <<0, Epoch0>>, <<13, [Epoch0 EXCEPT !.us = 120000, !.off = -90]>>, <<191, [Epoch0 EXCEPT !.y = 9999, !.us = 999999, !.off = 600]>> }
Made == { [prio |-> k[1], t |-> k[2], host |-> Clean(s, MaxHost), app |-> Clean(w, MaxApp), pid |-> Clean(s, MaxProc), mid |-> Clean(s, 2), sd |-> d, text |-> Trim(x)] :
            k \in Kinds, d \in Tz \cup Els, x \in {s, w, s \o <<SP>>, <<SP>> \o s} }
Inverse == \A v \in Made : HeaderOk(v) /\ ParseBack(v)
Injective == \A v \in {x \in Made : x.prio = 13} : \A x \in {y \in Made : y.prio = 13} : EncMsg(v) = EncMsg(x) => SDList(v) = SDList(x) /\ v.text = x.text
Calendar == s = <<>> /\ w = <<>> => \A n \in -719000 .. -719000 + 366 * Years : LET c == CivilFromDays(n) IN
  /\ DaysFromCivil(c.y, c.mo, c.d) = n /\ c.mo \in 1 .. 12 /\ c.d \in 1 .. DaysIn(c.y, c.mo)
  /\ LET d == CivilFromDays(n + 1) IN \/ d.y = c.y /\ d.mo = c.mo /\ d.d = c.d + 1
                                      \/ d.y = c.y /\ d.mo = c.mo + 1 /\ d.d = 1 /\ c.d = DaysIn(c.y, c.mo)
                                      \/ d.y = c.y + 1 /\ d.mo = 1 /\ d.d = 1 /\ c.mo = 12 /\ c.d = 31
=============================================================================
