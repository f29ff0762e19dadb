------------------------------ MODULE MCChannels ------------------------------
(* Derived objects: what they inherit. The first use of the channels of a syslog by *)
(* several goroutines, step by step, guarded by a sync.Once.                         *)
EXTENDS Channels
CONSTANTS Procs, MaxObjs, OldWay   \* OldWay: without the guard, for comparison
VARIABLES once, table, pc, at, res, min
mvars == <<once, table, pc, at, res, min>>
vars == <<cvars, mvars>>

Names == {<<97>>, <<45>>, [k \in 1 .. 30 |-> 98], <<SP>>}
Init == /\ ChanInit(1)
        /\ min \in {0, 1, 7}
        /\ once = "no" /\ table = [v \in 0 .. 7 |-> "none"]
        /\ pc = [p \in Procs |-> "start"] /\ at = 0 /\ res = [p \in Procs |-> "-"]

\* objects
Ev(o, f, n) == [o |-> o, from |-> f, to |-> Cardinality(DOMAIN objs) + 1, s |-> n, app |-> n, p |-> 8 + min, hn |-> <<104>>, pidtext |-> <<49>>, err |-> FALSE, dev |-> FALSE]
New == DOMAIN objs = {} /\ \E n \in Names : Make(Ev("new", 0, n))
Derive == /\ Cardinality(DOMAIN objs) \in 1 .. MaxObjs - 1
          /\ \E f \in DOMAIN objs : \E n \in Names :
               \/ objs[f].k = "syslog" /\ Make(Ev("sub", f, n))
               \/ objs[f].k = "syslog" /\ n = <<97>> /\ \E v \in {0, 1, 7} : Make([Ev("chan", f, n) EXCEPT !.p = v, !.dev = v > min])
               \/ objs[f].k = "chan" /\ \E x \in {"app", "mid"} : Make([Ev(x, f, n) EXCEPT !.dev = objs[f].dev])
\* goroutines: Channel(v) for the severity v = min (the last one that is filled)
Enter(p) == /\ pc[p] = "start"
            /\ IF OldWay THEN pc' = [pc EXCEPT ![p] = IF \E v \in 0 .. 7 : table[v] # "none" THEN "read" ELSE "make"] /\ UNCHANGED once
               ELSE CASE once = "no" -> once' = "running" /\ pc' = [pc EXCEPT ![p] = "make"]
                      [] once = "done" -> pc' = [pc EXCEPT ![p] = "read"] /\ UNCHANGED once
                      [] once = "running" -> FALSE
            /\ UNCHANGED <<table, at, res, min>>
MakeTable(p) == /\ pc[p] = "make" /\ table' = [v \in 0 .. 7 |-> "dev"] /\ at' = 0
                /\ pc' = [pc EXCEPT ![p] = "fill"] /\ UNCHANGED <<once, res, min>>
Fill(p) == /\ pc[p] = "fill"
           /\ IF at <= min THEN table' = [table EXCEPT ![at] = "live"] /\ at' = at + 1 /\ UNCHANGED <<pc, once>>
              ELSE pc' = [pc EXCEPT ![p] = "read"] /\ once' = "done" /\ UNCHANGED <<table, at>>
           /\ UNCHANGED <<res, min>>
ReadIt(p) == pc[p] = "read" /\ res' = [res EXCEPT ![p] = table[min]] /\ pc' = [pc EXCEPT ![p] = "end"] /\ UNCHANGED <<once, table, at, min>>

Next == \/ (New \/ Derive) /\ UNCHANGED mvars
        \/ \E p \in Procs : (Enter(p) \/ MakeTable(p) \/ Fill(p) \/ ReadIt(p)) /\ UNCHANGED cvars
\* both parts are independent
Spec == Init /\ [][Next]_vars
ObjSpec == Init /\ [][(New \/ Derive) /\ UNCHANGED mvars]_vars
OnceSpec == Init /\ [][\E p \in Procs : (Enter(p) \/ MakeTable(p) \/ Fill(p) \/ ReadIt(p)) /\ UNCHANGED cvars]_vars

NeverLost == \A p \in Procs : res[p] \in {"-", "live"}
Identity == \A n \in DOMAIN objs : LET o == objs[n] IN
  /\ o.k = "syslog" => Printable(o.app, MaxApp) /\ o.min = min /\ o.fac = 1
  /\ o.k = "chan" => IF o.dev THEN min < 7 ELSE /\ Printable(o.app, MaxApp) /\ Printable(o.mid, MaxMsgid)
                                                  /\ SevOf(o.prio) <= min /\ FacOf(o.prio) = 1
Immutable == [][\A n \in DOMAIN objs : objs'[n] = objs[n]]_objs
=============================================================================
