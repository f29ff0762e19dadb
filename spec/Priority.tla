------------------------------- MODULE Priority -------------------------------
(* C19: the forms of priorities *)
EXTENDS Integers, Sequences, TLC

Facilities == <<"kern", "user", "mail", "daemon", "auth", "syslog", "lpr", "news", "uucp", "cron", "authpriv", "ftp",
                "", "", "", "", "local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7">>
Severities == <<"emerg", "alert", "crit", "err", "warning", "notice", "info", "debug">>
FacOf(p) == p \div 8
SevOf(p) == p % 8
Named(p) == p \in 0 .. 191 /\ Facilities[FacOf(p) + 1] # ""
NameOf(p) == Facilities[FacOf(p) + 1] \o "." \o Severities[SevOf(p) + 1]

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
WireOf(p) == <<60>> \o Digits(p) \o <<62, 49>>

\* the priority of a wire form, -1 if it isn't one
WirePrio(b) ==
  IF Len(b) \notin 4 .. 6 \/ b[1] # 60 \/ b[Len(b)] # 49 \/ b[Len(b) - 1] # 62 THEN -1
  ELSE LET d == SubSeq(b, 2, Len(b) - 2)
       IN  IF \E k \in 1 .. Len(d) : d[k] \notin 48 .. 57 THEN -1
           ELSE CASE Len(d) = 1 -> d[1] - 48
                  [] Len(d) = 2 -> 10 * (d[1] - 48) + d[2] - 48
                  [] OTHER -> 100 * (d[1] - 48) + 10 * (d[2] - 48) + d[3] - 48
=============================================================================
