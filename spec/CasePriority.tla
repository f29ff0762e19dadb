----------------------------- MODULE CasePriority -----------------------------
(* C19 *)
EXTENDS Cases, Priority

\* the table of names, as a function
NameTable == [n \in {NameOf(p) : p \in {q \in 0 .. 191 : Named(q)}} |-> CHOOSE p \in 0 .. 191 : Named(p) /\ NameOf(p) = n]

PriorityOk(c) ==
  CASE c.op = "marshal" -> ~c.err /\ c.out = WireOf(c.p)
    [] c.op = "unmarshal" -> LET v == WirePrio(c.b) IN
                             IF v < 0 THEN c.err /\ c.after = c.before ELSE ~c.err /\ c.after = v
    [] c.op = "set" -> IF c.s \in DOMAIN NameTable THEN ~c.err /\ c.after = NameTable[c.s]
                       ELSE c.err /\ c.after = c.before
    \* a facility without a name has no other one's name
    [] c.op = "string" -> IF Named(c.p) THEN c.s = NameOf(c.p) ELSE c.p < 192 => c.s \notin DOMAIN NameTable
    \* both forms are inverse of each other; facility and severity are the parts of a priority
    [] c.op = "both" -> ~c.err /\ c.after = c.p /\ c.fac = 8 * FacOf(c.p) /\ c.sev = SevOf(c.p)
=============================================================================
