------------------------------ MODULE Receiver ------------------------------
(***************************************************************************)
(* The Receiver of syslog5424 (listener.go): it accepts connections, cuts  *)
(* each byte stream into frames and hands over one result per frame.       *)
(*                                                                         *)
(* items[c] are the results that the stream of connection c has to give,   *)
(* in order.  An item is a record                                          *)
(*   end   number of bytes of the stream that complete it                  *)
(*   may   number of bytes from which it could already be decided          *)
(*   tail  its frame is cut: it only has to come when the stream ends there *)
(*   kind  "msg"  a message, of content d                                  *)
(*         "err"  an error (a frame that isn't a message)                  *)
(*         "lost" an error after which the stream can't be decoded anymore *)
(*         "inc"  an incomplete-message error, "incmsg" with content d     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT ErrCap   \* errors that can wait to be read

VARIABLES
  items,   \* see above
  fed,     \* fed[c]: bytes that Read has returned
  cst,     \* cst[c]: "new", "open", "ended" (Read returned EOF or an error), "closed"
  got,     \* got[c]: indices of the results received
  endSt,   \* "no", "asked", "done" (End returned)
  lst,     \* listener: "open", "closed"
  late,    \* calls of Accept that started after End returned
  errs,    \* published errors that are not read
  faults,  \* failures so far
  over     \* Receive has reported the end

rvars == <<items, fed, cst, got, endSt, lst, late, errs, faults, over>>

Conns == DOMAIN items

RInit(its) ==
  /\ items = its
  /\ fed = [c \in DOMAIN its |-> 0]
  /\ cst = [c \in DOMAIN its |-> "new"]
  /\ got = [c \in DOMAIN its |-> {}]
  /\ endSt = "no" /\ lst = "open" /\ late = 0
  /\ errs = {} /\ faults = 0 /\ over = FALSE

Ended(c) == cst[c] \in {"ended", "closed"}
\* index of the item after which nothing can be decoded, 0 if none
Lost(c) == LET L == {i \in DOMAIN items[c] : items[c][i].kind = "lost"}
           IN  IF L = {} THEN 0 ELSE CHOOSE i \in L : TRUE
May(c, i) == LET x == items[c][i] IN fed[c] >= x.may \/ (x.tail /\ Ended(c))
LostNow(c) == Lost(c) # 0 /\ May(c, Lost(c))
\* results that must be handed over now
Complete(c) == {i \in DOMAIN items[c] : LET x == items[c][i] IN IF x.tail THEN Ended(c) ELSE fed[c] >= x.end}

------------------------------------------------------------------------------
(* Accepting *)

AcceptCall ==
  /\ IF endSt # "done" THEN late' = late ELSE late = 0 /\ late' = 1
  /\ UNCHANGED <<items, fed, cst, got, endSt, lst, errs, faults, over>>

Accept(c) ==
  /\ lst = "open" /\ cst[c] = "new"
  /\ cst' = [cst EXCEPT ![c] = "open"]
  /\ UNCHANGED <<items, fed, got, endSt, lst, late, errs, faults, over>>

\* a failure is published, unless too many are already waiting (others: failures that happen at the same time)
Publish(k, published, certain, others) ==
  /\ k = faults + 1 /\ faults' = k
  /\ ((certain /\ Cardinality(errs) + others < ErrCap) => published)
  /\ errs' = IF published THEN errs \cup {k} ELSE errs

\* (a failure while End is called isn't one)
AcceptFail(k, published, certain, others) ==
  /\ Publish(k, published, certain, others)
  /\ UNCHANGED <<items, fed, cst, got, endSt, lst, late, over>>

------------------------------------------------------------------------------
(* Reading *)

Feed(c, n) ==
  /\ cst[c] = "open" /\ n > 0
  /\ fed' = [fed EXCEPT ![c] = @ + n]
  /\ UNCHANGED <<items, cst, got, endSt, lst, late, errs, faults, over>>

\* Read returned without anything
None(c) == cst[c] = "open" /\ UNCHANGED rvars

Eof(c) ==
  /\ cst[c] = "open"
  /\ cst' = [cst EXCEPT ![c] = "ended"]
  /\ UNCHANGED <<items, fed, got, endSt, lst, late, errs, faults, over>>

ReadFail(c, k, published, others) ==
  /\ cst[c] = "open"
  /\ Publish(k, published, TRUE, others)
  /\ cst' = [cst EXCEPT ![c] = "ended"]
  /\ UNCHANGED <<items, fed, got, endSt, lst, late, over>>

\* a connection is closed once it ended, or can't be decoded anymore
Close(c) ==
  /\ cst[c] = "ended" \/ (cst[c] = "open" /\ LostNow(c))
  /\ cst' = [cst EXCEPT ![c] = "closed"]
  /\ UNCHANGED <<items, fed, got, endSt, lst, late, errs, faults, over>>

------------------------------------------------------------------------------
(* Receiving *)

Matches(x, d, err, inc) ==
  CASE x.kind = "msg" -> ~err /\ d = x.d
    [] x.kind \in {"err", "lost"} -> err
    [] x.kind = "inc" -> err /\ inc
    [] x.kind = "incmsg" -> err /\ inc /\ d = x.d

\* r goroutines call Receive: r - 1 of them may not have looked at their result yet
Recv(c, i, r) ==
  /\ ~over \/ r > 1
  /\ i \notin got[c] /\ May(c, i)
  /\ Cardinality((1 .. i - 1) \ got[c]) < r
  /\ got' = [got EXCEPT ![c] = @ \cup {i}]
  /\ UNCHANGED <<items, fed, cst, endSt, lst, late, errs, faults, over>>

\* Receive tells that the receiver is ended
RecvEnd(r) ==
  /\ endSt # "no" /\ lst = "closed"
  /\ \A c \in Conns : cst[c] \in {"new", "closed"}
  /\ r = 1 => \A c \in Conns : Complete(c) \subseteq got[c]
  /\ over' = TRUE
  /\ UNCHANGED <<items, fed, cst, got, endSt, lst, late, errs, faults>>

------------------------------------------------------------------------------
(* Ending *)

EndCall ==
  /\ endSt = "no" /\ endSt' = "asked"
  /\ UNCHANGED <<items, fed, cst, got, lst, late, errs, faults, over>>

EndReturn ==
  /\ endSt = "asked" /\ endSt' = "done"
  /\ UNCHANGED <<items, fed, cst, got, lst, late, errs, faults, over>>

CloseListener ==
  /\ endSt # "no" /\ lst' = "closed"
  /\ UNCHANGED <<items, fed, cst, got, endSt, late, errs, faults, over>>

------------------------------------------------------------------------------
ReadErr(k) ==
  /\ k \in errs /\ errs' = errs \ {k}
  /\ UNCHANGED <<items, fed, cst, got, endSt, lst, late, faults, over>>

NoErr == errs = {} /\ UNCHANGED rvars

\* nothing more happens until the environment does something
Quiescent ==
  /\ \A c \in Conns : cst[c] # "new" =>
       /\ Complete(c) \subseteq got[c]
       /\ (cst[c] = "ended" \/ (Lost(c) \in Complete(c))) => cst[c] = "closed"
  /\ endSt # "no" => lst = "closed"
  /\ UNCHANGED rvars
=============================================================================
