------------------------------- MODULE MCPath -------------------------------
(* How a listener is created, step by step (bind, look at what is there,      *)
(* remove, bind again), against what Path.tla allows.                         *)
EXTENDS Path
CONSTANTS Old   \* "": as it must be. "noLook": without looking. "follow": looking through links. "again": without giving up
VARIABLES pc, ty, nob, was, wasBy, steps
vars == <<pvars, pc, ty, nob, was, wasBy, steps>>

Init == /\ \E w \in {"ok", "never"} : PathInit(w)
        /\ pc = "idle" /\ ty = "-" /\ nob = FALSE /\ was = Nothing /\ wasBy = "root" /\ steps = 0

\* the environment
Env == /\ pc = "idle"
       /\ \/ \E k \in {Nothing} \cup Stale \cup Foreign : where = "ok" /\ k # Nothing /\ Place(k)
          \/ at # Nothing /\ Clear
          \/ \E k \in {"closed", "open", "sticky"} : perm # k /\ Perm(k)
          \/ lis # "-" /\ \E n \in {"none", "sock"} : Close(n)
       /\ UNCHANGED <<pc, ty, nob, was, wasBy, steps>>

Ask == /\ pc = "idle" /\ lis = "-" /\ at # "live"
       /\ pc' = "bind" /\ \E t \in Types, n \in BOOLEAN : ty' = t /\ nob' = n
       /\ was' = at /\ wasBy' = by /\ steps' = 0 /\ UNCHANGED pvars

CanAdd == where = "ok" /\ (nob => perm # "closed")
CanRemove == nob => perm = "open" \/ (perm = "sticky" /\ by = "nobody")
To(x) == pc' = x /\ steps' = steps + 1 /\ UNCHANGED <<ty, nob, was, wasBy>>

\* the address is taken by anything that is there, even a link that leads nowhere
Bind == /\ pc = "bind"
        /\ IF where # "ok" THEN To("err") /\ UNCHANGED pvars
           ELSE IF at # Nothing THEN To("look") /\ UNCHANGED pvars
           ELSE IF ~CanAdd THEN To("err") /\ UNCHANGED pvars
           ELSE To("ok") /\ at' = "live" /\ by' = (IF nob THEN "nobody" ELSE "root") /\ UNCHANGED <<lis, perm, where>>
IsSocket == at \in Stale \/ (Old = "follow" /\ at \in {"linkstale", "linkstaledgram", "linkchainstale"})
Look == /\ pc = "look" /\ UNCHANGED pvars
        /\ IF Old = "noLook" \/ IsSocket THEN To("remove") ELSE To("err")
Remove == /\ pc = "remove"
          /\ IF CanRemove /\ at # "dirfull" THEN at' = Nothing /\ To("bind") /\ UNCHANGED <<lis, perm, by, where>>
             ELSE To(IF Old = "again" THEN "bind" ELSE "err") /\ UNCHANGED pvars
\* the end of the creation, and of the process when it is another one
EndOf == /\ pc \in {"ok", "err"}
         /\ pc' = "idle" /\ UNCHANGED <<ty, nob, was, wasBy, perm, by, where>> /\ steps' = 0
         /\ IF pc = "ok" /\ nob THEN at' = LeftBy(ty) /\ UNCHANGED lis
            ELSE IF pc = "ok" THEN lis' = ty /\ UNCHANGED at
            ELSE UNCHANGED <<at, lis>>
Next == Env \/ Ask \/ Bind \/ Look \/ Remove \/ EndOf
Spec == Init /\ [][Next]_vars /\ WF_vars(Bind \/ Look \/ Remove \/ EndOf)

\* as Path.tla says
MayListen == where = "ok" /\ (was = Nothing \/ was \in Stale) /\ (nob => IF was = Nothing THEN perm # "closed" ELSE perm = "open" \/ (perm = "sticky" /\ wasBy = "nobody"))
Right == /\ pc = "ok" => MayListen /\ at = "live"
         /\ pc = "err" => ~MayListen /\ at = was
NeverDestroyed == pc # "idle" /\ was \in Foreign => at = was
Bounded == steps <= 4
Answers == (pc = "bind") ~> (pc = "idle")
=============================================================================
