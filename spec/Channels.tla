------------------------------- MODULE Channels -------------------------------
(***************************************************************************)
(* Syslogs, their channels, and what is emitted through them.              *)
(* An object is a syslog, a channel or a logger. Objects never change.     *)
(***************************************************************************)
EXTENDS Message

VARIABLES objs,   \* name -> object
          todo    \* worker -> the messages that it logged and that weren't seen yet, in order

cvars == <<objs, todo, vals>>

\* the name of something derived: "-" is no name
Join(app, sub) == Clean(IF app = <<45>> THEN sub ELSE app \o <<47>> \o sub, MaxApp)

Syslog(min, app, host, pid) == [k |-> "syslog", fac |-> FacOf(min), min |-> SevOf(min), app |-> Clean(app, MaxApp), host |-> Clean(host, MaxHost), pid |-> pid]
DevNull == [k |-> "chan", dev |-> TRUE]
Live(s, sev) == [k |-> "chan", dev |-> FALSE, prio |-> 8 * s.fac + sev, host |-> s.host, pid |-> s.pid, app |-> s.app, mid |-> <<45>>]
\* severities are less severe when they are greater
ChannelOf(s, p) == IF SevOf(p) <= s.min THEN Live(s, SevOf(p)) ELSE DevNull

ChanInit(n) == objs = <<>> /\ todo = [w \in 1 .. n |-> <<>>] /\ vals = <<>>
Add(n, x) == objs' = [y \in DOMAIN objs \cup {n} |-> IF y = n THEN x ELSE objs[y]]

\* the object made by E
Made(E) ==
  LET o == IF E.from = 0 THEN DevNull ELSE objs[E.from] IN
  CASE E.o = "new" -> Syslog(E.p, E.app, E.hn, E.pidtext)
    [] E.o = "sub" -> [o EXCEPT !.app = Join(o.app, E.s)]
    [] E.o = "chan" -> ChannelOf(o, E.p)
    [] E.o = "app" -> IF o.dev THEN o ELSE [o EXCEPT !.app = Join(o.app, E.s)]
    [] E.o = "mid" -> IF o.dev THEN o ELSE [o EXCEPT !.mid = Clean(E.s, MaxMsgid)]
    [] E.o = "logger" -> [k |-> "logger", c |-> o, prefix |-> E.s]

Make(E) ==
  IF E.o = "new" /\ E.app = <<>> THEN E.err /\ UNCHANGED cvars
  ELSE /\ ~E.err
       /\ Add(E.to, Made(E))
       /\ Made(E).k = "chan" => E.dev = Made(E).dev
       /\ UNCHANGED <<todo, vals>>

\* what is emitted for one text: the text, or for loggers a prefix and more
Texts1(E, o) ==
  IF E.o = "print" THEN [pre |-> o.prefix, post |-> E.text, any |-> SevOf(o.c.prio) = 7]
  ELSE [pre |-> <<>>, post |-> E.text, any |-> FALSE]
ChanOf(o) == IF o.k = "logger" THEN o.c ELSE o

LogTo(E) ==
  LET o == objs[E.from]
      c == ChanOf(o)
  IN  /\ E.o = "write" => E.n = Len(E.text) /\ ~E.err
      /\ todo' = IF c.dev THEN todo
                 ELSE [todo EXCEPT ![E.w] = Append(@, [c |-> c, sd |-> E.els, lo |-> E.lo, hi |-> E.hi] @@ Texts1(E, o))]
      /\ UNCHANGED <<objs, vals>>

Starts(b, p) == Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p
\* debug loggers add the place of the call
TextOk(x, text) == IF x.any THEN /\ Starts(text, x.pre)
                                 /\ EndsWith(text, Trim(x.post))
                                 /\ Len(text) >= Len(x.pre) + Len(Trim(x.post))
                   ELSE text = Trim(x.pre \o x.post)
FrameOf(x, d) ==
  LET m == ParseMsg(d) IN
  /\ m.ok /\ CanonTime(m.f[2]) /\ TextOk(x, m.text)
  /\ LET t == TimeOf(m.f[2])
         v == [prio |-> x.c.prio, t |-> t, host |-> x.c.host, app |-> x.c.app, pid |-> x.c.pid, mid |-> x.c.mid, sd |-> x.sd, text |-> m.text]
     IN  d = EncMsg(v) /\ NotAfter(x.lo, Instant(t)) /\ NotAfter(Instant(t), x.hi)

\* a frame d went out: the next one of some goroutine
Emitted(d) == \E w \in DOMAIN todo :
  /\ todo[w] # <<>> /\ FrameOf(Head(todo[w]), d)
  /\ todo' = [todo EXCEPT ![w] = Tail(@)]
  /\ UNCHANGED <<objs, vals>>
\* everything went out
AllOut == (\A w \in DOMAIN todo : todo[w] = <<>>) /\ UNCHANGED cvars
=============================================================================
