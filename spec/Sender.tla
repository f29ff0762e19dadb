------------------------------- MODULE Sender -------------------------------
(***************************************************************************)
(* The Sender of syslog5424 (connector.go): any number of goroutines call  *)
(* Send, one goroutine flushes the queue to a connection at every tick and *)
(* at End, reconnects after failures and publishes them on a channel.      *)
(*                                                                         *)
(* Observable actions: Call/Return of Send, Tick, Connect, ConnectFail,    *)
(* WriteSeg (bytes accepted by the connection), WriteFail, NoBuffer,       *)
(* Close, EndCall, EndReturn, ReadErr, ErrClosed.  Internal: Enqueue (the  *)
(* linearization point of Send), Report (part of the failing action).      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  flen,    \* flen[m]: bytes of the frame of message m, 0 if it can't be encoded
  st,      \* st[m]: "idle", "called", "queued", "written", "refused"
  ret,     \* ret[m]: Send(m) has returned
  queue,   \* accepted frames that are not completely written
  pos,     \* bytes of Head(queue) already written on the current connection
  conn,    \* current connection, 0 if none
  cstat,   \* cstat[c]: "open", "failed" or "closed", for each connection c
  keep,    \* the connection said "no buffer space": it must be kept
  due,     \* messages for which the last tick still has to do something
  endSt,   \* "no", "asked", "done"
  must,    \* messages that End has to deliver
  errs,    \* published errors not yet read
  faults,  \* number of failures so far
  errSt    \* "open", "closed"

svars == <<flen, st, ret, queue, pos, conn, cstat, keep, due, endSt, must, errs, faults, errSt>>

Msgs == DOMAIN st

SInit(lens) ==
  /\ flen = lens
  /\ st = [m \in DOMAIN lens |-> "idle"]
  /\ ret = [m \in DOMAIN lens |-> FALSE]
  /\ queue = <<>> /\ pos = 0
  /\ conn = 0 /\ cstat = <<>> /\ keep = FALSE
  /\ due = {} /\ endSt = "no" /\ must = {}
  /\ errs = <<>> /\ faults = 0 /\ errSt = "open"

------------------------------------------------------------------------------
(* The callers *)

Call(m) ==
  /\ st[m] = "idle"
  /\ st' = [st EXCEPT ![m] = "called"]
  /\ UNCHANGED <<flen, ret, queue, pos, conn, cstat, keep, due, endSt, must, errs, faults, errSt>>

\* the frame enters the queue, somewhere between the call and the return of Send
Enqueue(m) ==
  /\ st[m] = "called" /\ flen[m] > 0
  /\ st' = [st EXCEPT ![m] = "queued"]
  /\ queue' = Append(queue, m)
  /\ UNCHANGED <<flen, ret, pos, conn, cstat, keep, due, endSt, must, errs, faults, errSt>>

Return(m) ==
  /\ st[m] \in {"queued", "written"} /\ ~ret[m]
  /\ ret' = [ret EXCEPT ![m] = TRUE]
  /\ UNCHANGED <<flen, st, queue, pos, conn, cstat, keep, due, endSt, must, errs, faults, errSt>>

\* Send returns an error: nothing is ever sent for this message
Refuse(m) ==
  /\ st[m] = "called" /\ flen[m] = 0
  /\ st' = [st EXCEPT ![m] = "refused"]
  /\ UNCHANGED <<flen, ret, queue, pos, conn, cstat, keep, due, endSt, must, errs, faults, errSt>>

------------------------------------------------------------------------------
(* The environment asks for a flush or for the end *)

Accepted == {m \in Msgs : ret[m] /\ st[m] # "written"}

Tick ==
  /\ endSt = "no"
  /\ due' = due \cup Accepted
  /\ UNCHANGED <<flen, st, ret, queue, pos, conn, cstat, keep, endSt, must, errs, faults, errSt>>

EndCall ==
  /\ endSt = "no"
  /\ endSt' = "asked"
  /\ must' = Accepted
  /\ UNCHANGED <<flen, st, ret, queue, pos, conn, cstat, keep, due, errs, faults, errSt>>

------------------------------------------------------------------------------
(* The flushing goroutine *)

AllClosed == \A c \in DOMAIN cstat : cstat[c] # "failed"

Connect(c) ==
  /\ endSt # "done" /\ conn = 0 /\ AllClosed
  /\ c = Len(cstat) + 1
  /\ cstat' = Append(cstat, "open")
  /\ conn' = c
  /\ UNCHANGED <<flen, st, ret, queue, pos, keep, due, endSt, must, errs, faults, errSt>>

\* a failure is published if nothing is waiting to be read; otherwise it may be dropped
Report(k, published) ==
  /\ k = faults + 1
  /\ faults' = k
  /\ errSt = "open"
  /\ (errs = <<>> => published)
  /\ errs' = IF published THEN Append(errs, k) ELSE errs

ConnectFail(k, published) ==
  /\ endSt # "done" /\ conn = 0 /\ AllClosed
  /\ Report(k, published)
  /\ due' = {}
  /\ UNCHANGED <<flen, st, ret, queue, pos, conn, cstat, keep, endSt, must, errSt>>

\* the connection accepts the bytes a+1 .. b of the frame m
WriteSeg(c, m, a, b) ==
  /\ endSt # "done" /\ conn = c /\ cstat[c] = "open"
  /\ queue # <<>> /\ m = Head(queue)
  /\ a = pos /\ a < b /\ b <= flen[m]
  /\ keep' = FALSE
  /\ IF b = flen[m]
     THEN /\ queue' = Tail(queue) /\ pos' = 0
          /\ st' = [st EXCEPT ![m] = "written"]
          /\ due' = due \ {m}
     ELSE pos' = b /\ UNCHANGED <<queue, st, due>>
  /\ UNCHANGED <<flen, ret, conn, cstat, endSt, must, errs, faults, errSt>>

\* the connection fails: it is abandoned and the head will be sent again from its begin
WriteFail(c, k, published) ==
  /\ endSt # "done" /\ conn = c /\ cstat[c] = "open"
  /\ Report(k, published)
  /\ cstat' = [cstat EXCEPT ![c] = "failed"]
  /\ conn' = 0 /\ pos' = 0 /\ keep' = FALSE /\ due' = {}
  /\ UNCHANGED <<flen, st, ret, queue, endSt, must, errSt>>

\* no buffer space: not a failure, the write will continue later where it stopped
NoBuffer(c, k) ==
  /\ endSt # "done" /\ conn = c /\ cstat[c] = "open"
  /\ k = faults + 1 /\ faults' = k
  /\ keep' = (queue # <<>>) /\ due' = {}
  /\ UNCHANGED <<flen, st, ret, queue, pos, conn, cstat, endSt, must, errs, errSt>>

\* a failed connection is always closed; a working one only between two frames
Close(c) ==
  /\ endSt # "done"
  /\ c \in DOMAIN cstat
  /\ cstat[c] = "open" => (pos = 0 /\ ~keep)
  /\ cstat' = [cstat EXCEPT ![c] = "closed"]
  /\ conn' = IF conn = c THEN 0 ELSE conn
  /\ UNCHANGED <<flen, st, ret, queue, pos, keep, due, endSt, must, errs, faults, errSt>>

EndReturn ==
  /\ endSt = "asked"
  /\ \A m \in must : st[m] = "written"
  /\ pos = 0
  /\ \A c \in DOMAIN cstat : cstat[c] = "closed"
  /\ endSt' = "done"
  /\ UNCHANGED <<flen, st, ret, queue, pos, conn, cstat, keep, due, must, errs, faults, errSt>>

------------------------------------------------------------------------------
(* The reader of the error channel *)

ReadErr(k) ==
  /\ errs # <<>> /\ k = Head(errs)
  /\ errs' = Tail(errs)
  /\ UNCHANGED <<flen, st, ret, queue, pos, conn, cstat, keep, due, endSt, must, faults, errSt>>

\* a reader that finds nothing to read
NoErr ==
  /\ errs = <<>>
  /\ UNCHANGED svars

ErrClosed ==
  /\ endSt # "no" /\ errSt = "open" /\ errs = <<>>
  /\ \A m \in must : st[m] = "written"
  /\ errSt' = "closed"
  /\ UNCHANGED <<flen, st, ret, queue, pos, conn, cstat, keep, due, endSt, must, errs, faults>>

\* nothing more happens until the environment does something
Quiescent ==
  /\ due = {} /\ AllClosed
  /\ UNCHANGED svars
=============================================================================
