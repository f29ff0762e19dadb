------------------------------- MODULE Registry -------------------------------
(***************************************************************************)
(* The registry of structured data decoders, shared by every goroutine.    *)
(* A decoder d has a name, a kind and an id (see Claims). tq: its name is   *)
(* that of the timeQuality decoder, which is always there.                 *)
(* A registration takes effect at one instant between its call and its     *)
(* return. The elements of a message are read one after another, each with *)
(* the registry of that instant.                                           *)
(***************************************************************************)
EXTENDS SData, FiniteSets

VARIABLES decs,   \* the decoders
          reg,    \* indexes of the registered ones
          adding, \* registrations in progress: worker -> set of decoders
          parse   \* parses in progress: worker -> [els, from: what was registered at the call]

gvars == <<decs, reg, adding, parse>>
Workers == DOMAIN parse
Idle == [els |-> <<>>, from |-> {}, on |-> FALSE]

RegInit(D, n) == /\ decs = D /\ reg = {}
                 /\ adding = [w \in 1 .. n |-> {}]
                 /\ parse = [w \in 1 .. n |-> Idle]

StartsWith(b, p) == Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p
\* does d recognise the element?
Claims(d, el) ==
  LET x == decs[d] IN
  CASE x.kind = "bare"  -> el = <<LBR>> \o x.sid \o <<RBR>>
    [] x.kind = "exact" -> StartsWith(el, <<LBR>> \o x.sid) /\ el[Len(x.sid) + 2] \in {SP, RBR}
    [] x.kind = "picky" -> StartsWith(el, <<LBR>> \o x.sid \o <<SP>>) /\ \A i \in 1 .. Len(el) : el[i] # 33
    [] x.kind = "prefix" -> StartsWith(el, <<LBR>> \o x.sid)

\* TimeQuality is registered under its own name before everything else
Taken(d) == decs[d].tq \/ \E k \in reg : decs[k].name = decs[d].name

RegisterCall(w, D) == adding[w] = {} /\ adding' = [adding EXCEPT ![w] = D] /\ UNCHANGED <<decs, reg, parse>>
\* the first one under a name is kept
DoRegister(w, d) == /\ d \in adding[w]
                    /\ reg' = IF Taken(d) THEN reg ELSE reg \cup {d}
                    /\ adding' = [adding EXCEPT ![w] = @ \ {d}]
                    /\ UNCHANGED <<decs, parse>>
RegisterReturn(w) == adding[w] = {} /\ UNCHANGED gvars

ParseCall(w, els) == /\ ~parse[w].on
                     /\ parse' = [parse EXCEPT ![w] = [els |-> els, from |-> reg, on |-> TRUE]]
                     /\ UNCHANGED <<decs, reg, adding>>

\* an item: who made it (0: unknown element, -1: timeQuality, d) and what it encodes to
Fits1(it, el, from) ==
  CASE it.who = 0 -> it.b = el /\ TQRead(el).is # "yes" /\ ~\E d \in from : Claims(d, el)
    [] it.who = -1 -> \/ TQRead(el).is = "yes" /\ it.b = TQEncode(TQRead(el).q)
                      \/ TQRead(el).is = "any"
    [] OTHER -> it.who \in reg /\ Claims(it.who, el) /\ it.b = el

\* well formed elements have one item each, others may have one
RECURSIVE Explained(_, _, _)
Explained(items, els, from) ==
  IF els = <<>> THEN items = <<>>
  ELSE IF WellFormedElem(els[1])
       THEN /\ items # <<>> /\ Fits1(items[1], els[1], from)
            /\ Explained(Tail(items), Tail(els), from \cup (IF items[1].who > 0 THEN {items[1].who} ELSE {}))
       ELSE \/ Explained(items, Tail(els), from)
            \/ items # <<>> /\ Explained(Tail(items), Tail(els), from)

ParseReturn(w, items) == /\ parse[w].on
                         /\ Explained(items, parse[w].els, parse[w].from)
                         /\ parse' = [parse EXCEPT ![w] = Idle]
                         /\ UNCHANGED <<decs, reg, adding>>
=============================================================================
