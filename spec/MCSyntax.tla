------------------------------- MODULE MCSyntax -------------------------------
(* The framing of Syntax.tla: a receiver that parses what it has, whenever it    *)
(* gets more bytes, delivers the same results as one that sees the whole stream; *)
(* and structured data elements can be read back.                                *)
EXTENDS Syntax, TLC

CONSTANTS MaxLen, Alphabet

VARIABLES t, s, n, pos, out, eof, dead   \* transport, stream, bytes read, consumed, results, end seen, closed
vars == <<t, s, n, pos, out, eof, dead>>

\* in this instance a message is anything without the byte x
Toy(b) == b # <<>> /\ ~Has(b, {120})

Init == /\ t \in {"nul", "lf", "rfc"}
        /\ s \in UNION {[1 .. k -> Alphabet] : k \in 0 .. MaxLen}
        /\ n = 0 /\ pos = 0 /\ out = <<>> /\ eof = FALSE /\ dead = FALSE

\* read one byte more, or the end
Read == /\ ~dead /\ ~eof
        /\ IF n < Len(s) THEN n' = n + 1 /\ eof' = FALSE ELSE eof' = TRUE /\ n' = n
        /\ UNCHANGED <<t, s, pos, out, dead>>

\* parse what is there
Step == /\ ~dead /\ pos < n
        /\ LET r == ParseRes(t, Sub(s, pos + 1, n), eof)
           IN  /\ r.res \notin {"nothing"}
               /\ r.res = "maybe" => FALSE
               /\ out' = Append(out, IF r.res = "lost" THEN "err" ELSE r.res)
               /\ pos' = IF r.rest > 0 THEN pos + r.rest - 1 ELSE n
               /\ dead' = (r.res = "lost")
        /\ UNCHANGED <<t, s, n, eof>>
Next == Read \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == LET it == Items(t, s) IN [k \in 1 .. Len(it) |-> IF it[k].kind = "lost" THEN "err" ELSE it[k].kind]
Prefix == Len(out) <= Len(Whole) /\ \A k \in 1 .. Len(out) : out[k] = Whole[k]
\* when nothing more can be parsed at the end, everything was delivered
Stuck == eof /\ (dead \/ pos = n)
AtEnd == (Stuck \/ dead) => Len(out) = Len(Whole)
NoRest == (eof /\ ~dead /\ pos < n) => ParseRes(t, Sub(s, pos + 1, n), TRUE).res # "nothing"
\* a complete frame doesn't wait for what follows it
Now == ~dead => \A k \in DOMAIN Whole : (Items(t, s)[k].end <= n /\ ~ENABLED Step) => Len(out) >= k

\* every whole frame is within the stream, and the frames follow each other
RECURSIVE Tiles(_)
Tiles(i) == i > Len(s) \/ LET f == Frame(t, s, i) IN
            f.st # "frame" \/ (i <= f.from /\ f.from <= f.next /\ f.next > i /\ f.next <= Len(s) + 1 /\ Tiles(f.next))
Tiled == n = 0 => Tiles(1)
=============================================================================
