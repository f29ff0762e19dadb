------------------------------ MODULE EndToEnd ------------------------------
(***************************************************************************)
(* Sender and Receiver together, over a real socket: what is called and    *)
(* what is received. A lane is a goroutine that uses a sender; the message *)
(* k of a lane comes after the message k-1, and after those of the other   *)
(* lanes of the sender whose Send returned before its own was called.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
  ec,      \* auto: sender -> BOOLEAN; lanes: sender -> number
  up,      \* the receiver listens
  st,      \* sender -> "new", "open", "ending", "ended"
  cnt,     \* sender -> lane -> Sends called
  fin,     \* sender -> lane -> Sends returned
  need,    \* <<sender, lane, k>> not received -> what must come before: lane -> number
  rcv      \* sender -> lane -> messages received
evars == <<ec, up, st, cnt, fin, need, rcv>>

Senders == DOMAIN ec.auto
Lanes(s) == 1 .. ec.lanes[s]
Zero(c) == [s \in DOMAIN c.auto |-> [g \in 1 .. c.lanes[s] |-> 0]]
E2EInit(c) == /\ ec = c /\ up = FALSE /\ st = [s \in DOMAIN c.auto |-> "new"]
              /\ cnt = Zero(c) /\ fin = Zero(c) /\ rcv = Zero(c) /\ need = <<>>

Delivered(s) == rcv[s] = cnt[s]
\* what has left, or will without anything more
Leaves(s) == st[s] = "ended" \/ (st[s] = "open" /\ ec.auto[s])
AllThere == \A s \in Senders : Leaves(s) => Delivered(s)

Up == ~up /\ up' = TRUE /\ UNCHANGED <<ec, st, cnt, fin, need, rcv>>
\* the process of the receiver ends, and nothing is in flight
Down == up /\ AllThere /\ (\A s \in Senders : st[s] # "ending") /\ up' = FALSE /\ UNCHANGED <<ec, st, cnt, fin, need, rcv>>
Dial(s) == st[s] = "new" /\ st' = [st EXCEPT ![s] = "open"] /\ UNCHANGED <<ec, up, cnt, fin, need, rcv>>
Call(s, g) == /\ st[s] = "open" /\ cnt[s][g] = fin[s][g]
              /\ cnt' = [cnt EXCEPT ![s][g] = @ + 1]
              /\ need' = (<<s, g, cnt'[s][g]>> :> fin[s]) @@ need
              /\ UNCHANGED <<ec, up, st, fin, rcv>>
Ret(s, g) == cnt[s][g] = fin[s][g] + 1 /\ fin' = [fin EXCEPT ![s][g] = @ + 1] /\ UNCHANGED <<ec, up, st, cnt, need, rcv>>
Drop(m) == [x \in DOMAIN need \ {m} |-> need[x]]
Receive(s, g, k) ==
  /\ up /\ st[s] # "new" /\ (st[s] = "open" => ec.auto[s])
  /\ k = rcv[s][g] + 1 /\ k <= cnt[s][g]
  /\ \A h \in Lanes(s) : rcv[s][h] >= need[<<s, g, k>>][h]
  /\ rcv' = [rcv EXCEPT ![s][g] = k] /\ need' = Drop(<<s, g, k>>)
  /\ UNCHANGED <<ec, up, st, cnt, fin>>
\* the user waited for everything
Sync == (up => AllThere) /\ UNCHANGED evars
EndCall(s) == st[s] = "open" /\ cnt[s] = fin[s] /\ st' = [st EXCEPT ![s] = "ending"] /\ UNCHANGED <<ec, up, cnt, fin, need, rcv>>
\* it has written everything
EndRet(s) == st[s] = "ending" /\ (up \/ Delivered(s)) /\ st' = [st EXCEPT ![s] = "ended"] /\ UNCHANGED <<ec, up, cnt, fin, need, rcv>>
=============================================================================
