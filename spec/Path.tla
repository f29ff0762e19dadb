-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* The object at the path of a unix or unixgram listener: creating and     *)
(* closing listeners, processes that end and leave their socket behind.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Nothing == "none"
Stale == {"stale", "staledgram", "stalepacket"}     \* sockets nobody listens on
\* what must never be destroyed
Links == {"linknone", "linkfile", "linkdir", "linkdirfull", "linkfifo", "linkstale", "linkstaledgram", "linkchain", "linkchainstale", "linkloop"}
Foreign == {"file", "empty", "dir", "dirfull", "fifo"} \cup Links
Types == {"unix", "unixgram"}

VARIABLES
  at,     \* what is at the path: one of the above or "live"
  lis,    \* type of the listener of this process, "-" if none
  perm,   \* may an unprivileged process add ("closed": no, "open", "sticky"), and remove what another user made ("open")
  by,     \* who made what is at the path: "root" or "nobody"
  where   \* is the path usable at all: "ok", or "never" (directory missing, name too long)
pvars == <<at, lis, perm, by, where>>

PathInit(w) == at = Nothing /\ lis = "-" /\ perm = "closed" /\ by = "root" /\ where = w

Place(k) == at = Nothing /\ lis = "-" /\ at' = k /\ by' = "root" /\ UNCHANGED <<lis, perm, where>>
Clear == lis = "-" /\ at' = Nothing /\ UNCHANGED <<lis, perm, by, where>>
Perm(k) == perm' = k /\ UNCHANGED <<at, lis, by, where>>

\* may the process listen there?
Free(nobody) == /\ where = "ok"
                /\ at = Nothing \/ at \in Stale
                /\ nobody => IF at = Nothing THEN perm # "closed" ELSE perm = "open" \/ (perm = "sticky" /\ by = "nobody")

\* what is observed with a creation that succeeds: the object at the path is new, nothing else changed
Created(E) == E.res = "ok" /\ E.now = "sock" /\ ~E.at /\ E.rest
\* ... and that fails: nothing changed
Refused(E) == E.res = "err" /\ E.now = E.was /\ E.at /\ E.rest

LeftBy(t) == IF t = "unix" THEN "stale" ELSE "staledgram"

\* a listener of this process
Listen(t, E) ==
  /\ lis = "-" /\ t \in Types
  /\ IF Free(FALSE) THEN Created(E) /\ at' = "live" /\ lis' = t /\ by' = "root"
     ELSE Refused(E) /\ UNCHANGED <<at, lis, by>>
  /\ UNCHANGED <<perm, where>>
\* a listener of another process, that is killed: its socket stays there
Dead(t, E, nobody) ==
  /\ lis = "-" /\ t \in Types
  /\ IF Free(nobody) THEN Created(E) /\ at' = LeftBy(t) /\ by' = IF nobody THEN "nobody" ELSE "root"
     ELSE Refused(E) /\ UNCHANGED <<at, by>>
  /\ UNCHANGED <<lis, perm, where>>

\* a created listener is usable at once, and as long as it isn't closed
Use(ok) == lis # "-" /\ at = "live" /\ ok /\ UNCHANGED pvars
\* its socket may be left behind
Close(now) ==
  /\ lis # "-" /\ lis' = "-"
  /\ \/ now = "none" /\ at' = Nothing
     \/ now = "sock" /\ at' = LeftBy(lis)
  /\ UNCHANGED <<perm, by, where>>
=============================================================================
