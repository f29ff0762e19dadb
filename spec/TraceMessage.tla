----------------------------- MODULE TraceMessage -----------------------------
(* C11, C12, C13, C23: operations on messages of the real code *)
EXTENDS Message, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
T == Traces[tr]
E0 == T.ev[l]
More == l <= Len(T.ev)
\* the timestamp that was encoded
EncTime(b) == LET a == CHOOSE i \in 1 .. Len(b) : b[i] = SP /\ \A k \in 1 .. i - 1 : b[k] # SP
                  z == CHOOSE i \in a + 1 .. Len(b) : b[i] = SP /\ \A k \in a + 1 .. i - 1 : b[k] # SP
              IN  SubSeq(b, a + 1, z - 1)
\* what a message that can't be encoded would show
InUTC(i) == Clock(i[1], i[2], i[3], 0)
Hidden == CASE E0.o \in {"now", "create"} -> InUTC(E0.lo)
            [] E0.o = "empty" -> Epoch0
            [] E0.o = "epoch" -> Shift(0, 0, 0, E0, 0)
            [] E0.o = "stamp" -> [E0.t EXCEPT !.y = StampYear(E0, E0.ns[1])]
            [] E0.o = "delta" -> InUTC(Instant(Shift(Days(E0.t), SecOfDay(E0.t) - E0.os, 1000 * E0.t.us, E0, E0.t.off)))
            [] OTHER -> InUTC(Instant(Given(E0)))
Shown == E0.e = "op" /\ (E0.o \in {"now", "create", "epoch", "stamp", "empty"} \/ (E0.o \in {"whole", "time", "delta"} /\ E0.os # 0))
E == IF Shown
     THEN E0 @@ ("ts" :> (IF E0.err THEN {Hidden} ELSE IF CanonTime(EncTime(E0.enc)) THEN {TimeOf(EncTime(E0.enc))} ELSE {}))
     ELSE E0
TraceInit == \E i \in 1 .. Len(Traces) : tr = i /\ l = 1 /\ MsgInit
TraceNext == /\ More /\ l' = l + 1 /\ UNCHANGED tr
             /\ CASE E.e = "op" -> Step(E)
                  [] E.e = "again" -> Again(E)
                  [] E.e = "parse" -> Parsed(E)
TraceSpec == TraceInit /\ [][TraceNext]_<<vals, tr, l>>
Theorems == \A n \in DOMAIN vals : HeaderOk(vals[n])
Done == l = Len(T.ev) + 1
Report1 == /\ (Done => PrintT(<<"ACC", tr>>))
           /\ (IOEnv.PROGRESS = "1" => PrintT(<<"POS", tr, l>>))
=============================================================================
