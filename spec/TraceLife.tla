------------------------------ MODULE TraceLife ------------------------------
(* C26: what real senders and receivers hold *)
EXTENDS Life, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l,
          seen,    \* what was held, and in which configuration
          kb       \* the memory used at the beginning
T == Traces[tr]
E == T.ev[l]
TraceInit == \E i \in 1 .. Len(Traces) : tr = i /\ l = 1 /\ Init0 /\ seen = {} /\ kb = 0

Set(f, x, v) == [f EXCEPT ![x] = v]
\* an event tells of the state to which the system comes
Sees(s, p, r, c) == snd' = s /\ peer' = p /\ rcv' = r /\ cl' = c /\ UNCHANGED <<seen, kb>>

\* as many things of each kind, or fewer
Fewer(a, b) == (a[1] = b[1] \/ a[1] = "down") /\ \A i \in 2 .. 7 : a[i] <= b[i]
\* not while a sender may be connecting, or may not know yet that its peer has left
Settled == Config[2] = 0 /\ (peer = "up" \/ Config[3] = 0)
MemoryLimit == 8192
Held(g, f) ==
  /\ Settled => \A m \in seen : Fewer(Config, m.cfg) => g <= m.g /\ f <= m.f
  /\ seen' = IF Settled THEN seen \cup {[cfg |-> Config, g |-> g, f |-> f]} ELSE seen
  /\ UNCHANGED <<kb, snd, peer, rcv, cl>>
\* whatever was sent and received, in KB
Memory(k) == /\ kb > 0 => k <= kb + MemoryLimit
             /\ kb' = IF kb = 0 THEN k ELSE kb
             /\ UNCHANGED <<seen, snd, peer, rcv, cl>>
\* a receiver isn't over before its clients have left; then there's no socket at its path
OverOk(r) == rcv[r] = "ending" /\ \A c \in C : cl[c] # r

TraceNext ==
  /\ l <= Len(T.ev) /\ l' = l + 1 /\ UNCHANGED tr
  /\ CASE E.e = "peer" -> Sees(snd, IF E.up THEN "up" ELSE "down", rcv, cl)
       [] E.e = "dial" -> snd[E.s] \in {"none", "ended"} /\ Sees(Set(snd, E.s, "fresh"), peer, rcv, cl)
       [] E.e = "up" -> peer = "up" /\ snd[E.s] \in {"fresh", "up", "down"} /\ Sees(Set(snd, E.s, "up"), peer, rcv, cl)
       [] E.e = "down" -> peer = "down" /\ snd[E.s] \in {"fresh", "up", "down"} /\ Sees(Set(snd, E.s, "down"), peer, rcv, cl)
       [] E.e = "ended" -> snd[E.s] \in {"fresh", "up", "down"} /\ Sees(Set(snd, E.s, "ended"), peer, rcv, cl)
       [] E.e = "listen" -> E.ok /\ rcv[E.r] \in {"none", "over"} /\ Sees(snd, peer, Set(rcv, E.r, "listens"), cl)
       [] E.e = "stop" -> rcv[E.r] = "listens" /\ Sees(snd, peer, Set(rcv, E.r, "ending"), cl)
       [] E.e = "over" -> OverOk(E.r) /\ ~E.left /\ Sees(snd, peer, Set(rcv, E.r, "over"), cl)
       [] E.e = "client" -> rcv[E.r] = "listens" /\ cl[E.c] = 0 /\ Sees(snd, peer, rcv, Set(cl, E.c, E.r))
       [] E.e = "leave" -> cl[E.c] # 0 /\ Sees(snd, peer, rcv, Set(cl, E.c, 0))
       [] E.e = "idle" -> Sees(snd, peer, rcv, cl)
       [] E.e = "held" -> Held(E.g, E.f)
       [] E.e = "memory" -> Memory(E.kb)
  /\ held' = Needed'
TraceSpec == TraceInit /\ [][TraceNext]_<<lifevars, tr, l, seen, kb>>
Done == l = Len(T.ev) + 1
Report1 == /\ (Done => PrintT(<<"ACC", tr>>))
           /\ (IOEnv.PROGRESS = "1" => PrintT(<<"POS", tr, l>>))
=============================================================================
