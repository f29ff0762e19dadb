-------------------------------- MODULE Message --------------------------------
(***************************************************************************)
(* Messages are values. Every operation makes a new one, out of another    *)
(* one or out of nothing, and changes no other one.                        *)
(***************************************************************************)
EXTENDS SData, Text, Priority

VARIABLE vals   \* the messages made so far: name -> message

------------------------------------------------------------------------------
(* calendar *)
DaysFromCivil(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - era * 400
      doy == (153 * (m + (IF m > 2 THEN -3 ELSE 9)) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN  era * 146097 + doe - 719468
CivilFromDays(z0) ==
  LET z == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN  [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), mo |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1]
\* a local time, from days and seconds that may be out of bounds
Clock(days, secs, us, off) ==
  LET D == days + (secs \div 86400)
      S == secs % 86400
      c == CivilFromDays(D)
  IN  [y |-> c.y, mo |-> c.mo, d |-> c.d, h |-> S \div 3600, mi |-> (S \div 60) % 60, s |-> S % 60, us |-> us, off |-> off]
Days(t) == DaysFromCivil(t.y, t.mo, t.d)
SecOfDay(t) == t.h * 3600 + t.mi * 60 + t.s
\* the instant, in UTC
Instant(t) == LET S == SecOfDay(t) - 60 * t.off
              IN  <<Days(t) + (S \div 86400), S % 86400, t.us>>
NotAfter(a, b) == \/ a[1] < b[1]
                  \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3]))
Dg(b, i, j) == Val(SubSeq(b, i, j))
\* the record of a canonical text
TimeOf(b) ==
  LET frac == IF b[20] # 46 THEN 19 ELSE CHOOSE e \in 20 .. Len(b) : (\A k \in 21 .. e : Digit(b[k])) /\ (e = Len(b) \/ ~Digit(b[e + 1]))
      f == SubSeq(b, 21, frac)
      z == SubSeq(b, frac + 1, Len(b))
  IN  [y |-> Dg(b, 1, 4), mo |-> Dg(b, 6, 7), d |-> Dg(b, 9, 10), h |-> Dg(b, 12, 13), mi |-> Dg(b, 15, 16), s |-> Dg(b, 18, 19),
       us |-> IF frac = 19 THEN 0 ELSE Val(f \o [k \in 1 .. 6 - Len(f) |-> 48]),
       off |-> IF z = <<90>> THEN 0 ELSE (IF z[1] = 45 THEN -1 ELSE 1) * (60 * Val(SubSeq(z, 2, 3)) + Val(SubSeq(z, 5, 6)))]

------------------------------------------------------------------------------
(* structured data: x.k is "raw" (x.b), "tq" (x.q), "el" (x.el) or "bad" *)
SDFails(x) == CASE x.k = "raw" -> FALSE [] x.k = "tq" -> ~TQValid(x.q) [] x.k = "el" -> Fails(x.el) [] x.k = "bad" -> TRUE
SDBytes(x) == CASE x.k = "raw" -> x.b [] x.k = "tq" -> TQEncode(x.q) [] x.k = "el" -> Encode(x.el)
SDList(v) == [i \in 1 .. Len(v.sd) |-> SDBytes(v.sd[i])]

CanEncode(v) == v.prio \in 0 .. 191 /\ \A i \in 1 .. Len(v.sd) : ~SDFails(v.sd[i])
Header(v) == WireOf(v.prio) \o <<SP>> \o TimeText(v.t) \o <<SP>> \o v.host \o <<SP>> \o v.app \o <<SP>> \o v.pid \o <<SP>> \o v.mid
EncMsg(v) == Header(v) \o <<SP>> \o (IF v.sd = <<>> THEN <<DASH>> ELSE Flat(SDList(v)))
             \o (IF v.text = <<>> THEN <<>> ELSE <<SP>> \o v.text)

------------------------------------------------------------------------------
Epoch0 == [y |-> 1970, mo |-> 1, d |-> 1, h |-> 0, mi |-> 0, s |-> 0, us |-> 0, off |-> 0]
Nothing == [prio |-> 0, t |-> Epoch0, host |-> <<45>>, app |-> <<45>>, pid |-> <<45>>, mid |-> <<45>>, sd |-> <<>>, text |-> <<>>]

\* the results of an operation. E: its arguments and what was observed around it.
\* E.ts are the timestamps that the encoding shows
Timed(v, E) == {[v EXCEPT !.t = t] : t \in {x \in E.ts : NotAfter(E.lo, Instant(x)) /\ NotAfter(Instant(x), E.hi)}}
\* an instant, in any zone
AnyZone(v, E, i) == {[v EXCEPT !.t = t] : t \in {x \in E.ts : Instant(x) = i}}
\* a timestamp in a zone whose offset has E.os seconds. if it isn't 0 it has to be told in another zone
Given(E) == Clock(Days(E.t), SecOfDay(E.t) - E.os, E.t.us, E.t.off)
InZone(v, E, t) == IF E.os = 0 THEN {[v EXCEPT !.t = t]} ELSE AnyZone(v, E, Instant(t))
\* a number of seconds and one of nanoseconds, as days, seconds, seconds of the nanoseconds, nanoseconds
Shift(days, secs, ns, E, off) ==
  LET N == ns + E.nr IN
  Clock(days + E.sd1, secs + E.ss + E.nq + (N \div 1000000000), (N % 1000000000) \div 1000, off)
StampYear(E, n) == IF n.mo = 1 /\ E.t.mo = 12 THEN n.y - 1 ELSE n.y
Stamped(v, E) == LET w(i) == [E.t EXCEPT !.y = StampYear(E, E.ns[i])]
                 IN  {[v EXCEPT !.t = t] : t \in {x \in E.ts : \E i \in 1 .. Len(E.ns) : [x EXCEPT !.off = 0] = w(i)}}

Results(E, v) ==
  CASE E.o = "create" -> Timed([Nothing EXCEPT !.app = Clean(E.app, MaxApp), !.prio = E.prio, !.text = Trim(E.text), !.host = Clean(E.hn, MaxHost)], E)
    [] E.o = "whole" -> InZone([prio |-> E.prio, t |-> Epoch0, host |-> Clean(E.host, MaxHost), app |-> Clean(E.app, MaxApp), pid |-> Clean(E.pid, MaxProc),
                          mid |-> Clean(E.mid, MaxMsgid), sd |-> <<>>, text |-> Trim(E.text)], E, Given(E))
    [] E.o = "empty" -> AnyZone(Nothing, E, Instant(Epoch0))
    [] E.o = "host" -> {[v EXCEPT !.host = Clean(E.s, MaxHost)]}
    [] E.o = "local" -> {[v EXCEPT !.host = Clean(E.hn, MaxHost)]}
    [] E.o = "app" -> {[v EXCEPT !.app = Clean(E.s, MaxApp)]}
    [] E.o = "pid" -> {[v EXCEPT !.pid = Clean(E.s, MaxProc)]}
    [] E.o = "mid" -> {[v EXCEPT !.mid = Clean(E.s, MaxMsgid)]}
    [] E.o = "msg" -> {[v EXCEPT !.text = Trim(E.s)]}
    [] E.o = "prio" -> {[v EXCEPT !.prio = E.p]}
    [] E.o = "time" -> InZone(v, E, Given(E))
    [] E.o = "sd" -> {[v EXCEPT !.sd = @ \o E.els]}
    [] E.o = "now" -> Timed(v, E)
    [] E.o = "epoch" -> AnyZone(v, E, Instant(Shift(0, 0, 0, E, 0)))
    [] E.o = "delta" -> InZone(v, E, Shift(Days(E.t), SecOfDay(E.t) - E.os, 1000 * E.t.us, E, E.t.off))
    [] E.o = "stamp" -> Stamped(v, E)
    [] E.o = "copy" -> {v}
    \* a parsed message made writable again
    [] E.o = "reparse" -> {v}

MsgInit == vals = <<>>
Put(n, v) == vals' = [x \in DOMAIN vals \cup {n} |-> IF x = n THEN v ELSE vals[x]]
Step(E) == \E v \in Results(E, IF E.from = 0 THEN Nothing ELSE vals[E.from]) :
             /\ Put(E.to, v)
             /\ E.err = ~CanEncode(v)
             /\ ~E.err => E.enc = EncMsg(v)
\* the encoding of a message is always the same
Again(E) == LET v == vals[E.i] IN
            /\ E.err = ~CanEncode(v)
            /\ ~E.err => E.enc = EncMsg(v)
            /\ UNCHANGED vals
\* what the encoding tells
Parsed(E) == LET v == vals[E.i] IN
            /\ ~E.err
            /\ E.prio = v.prio /\ E.ts = TimeText(v.t) /\ E.host = v.host /\ E.app = v.app /\ E.pid = v.pid /\ E.mid = v.mid
            /\ E.text = v.text /\ E.sdl = SDList(v)
            /\ E.d = EncMsg(v) /\ E.wenc = EncMsg(v)
            /\ UNCHANGED vals

------------------------------------------------------------------------------
(* theorems, for every message that can be encoded *)
Printable(f, max) == f # <<>> /\ Len(f) <= max /\ \A i \in 1 .. Len(f) : f[i] \in 33 .. 126
HeaderOk(v) == Printable(v.host, MaxHost) /\ Printable(v.app, MaxApp) /\ Printable(v.pid, MaxProc) /\ Printable(v.mid, MaxMsgid)
SDOk1(v) == \A i \in 1 .. Len(v.sd) : WellFormedElem(SDBytes(v.sd[i]))
ParseBack(v) == CanEncode(v) /\ SDOk1(v) =>
  LET m == ParseMsg(EncMsg(v)) IN
  /\ m.ok /\ m.f = <<WireOf(v.prio), TimeText(v.t), v.host, v.app, v.pid, v.mid>>
  /\ m.sd = SDList(v) /\ m.text = v.text
  /\ WirePrio(m.f[1]) = v.prio /\ CanonTime(m.f[2]) /\ TimeOf(m.f[2]) = v.t
=============================================================================
