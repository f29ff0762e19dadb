-------------------------------- MODULE MCPump --------------------------------
(* Bytes that mean nothing to the syntax are all alike: a run of them, as long   *)
(* as one likes, gives what a single one gives.  So the results of a parser for  *)
(* contents of any length are known from short ones (CaseParse, cases with X).   *)
EXTENDS Syntax, Priority

CONSTANTS MaxLen, Runs

Q == 81
Alphabet == {Q, 32, 34, 45, 61, 91, 92, 93, 120}
Start == <<60, 49, 62, 49, 32, 45, 32, 104, 32, 97, 32, 112, 32, 109, 32>>

VARIABLES x, k, t, cut, eof

Init == /\ x \in UNION {[1 .. n -> Alphabet] : n \in 0 .. MaxLen}
        /\ k \in Runs
        /\ t \in {"none", "nul", "lf", "rfc"}
        /\ cut \in IF t = "none" THEN {0} ELSE {-1, 0, 1}
        /\ eof \in BOOLEAN
Next == UNCHANGED <<x, k, t, cut, eof>>
Spec == Init /\ [][Next]_<<x, k, t, cut, eof>>

Run(b) == [i \in 1 .. k |-> b]
RECURSIVE Pump(_)
Pump(b) == IF b = <<>> THEN <<>> ELSE (IF b[1] = Q THEN Run(Q) ELSE <<b[1]>>) \o Pump(Tail(b))

Framed(m) == CASE t = "none" -> m
               [] t = "nul" -> m \o <<0>>
               [] t = "lf" -> m \o <<10>>
               [] t = "rfc" -> Digits(Len(m)) \o <<32>> \o m
\* the frame of m, without its last byte, alone, or with a byte that follows
Cut(f) == CASE cut = 0 -> f [] cut = 1 -> f \o <<120>> [] cut = -1 -> Sub(f, 1, Len(f) - 1)
\* Q at the end of a frame that is cut would lose a part of a run
Fair == cut # -1 \/ t # "rfc" \/ x = <<>> \/ x[Len(x)] # Q

Short == Cut(Framed(Start \o x))
Long == Cut(Framed(Pump(Start \o x)))
Header(m) == IF t = "rfc" THEN Len(Digits(Len(m))) + 1 ELSE 0

\* where the position i of Short is in Long
At(i) == IF i = 0 THEN 0
         ELSE LET h == Header(Start \o x)
              IN  Header(Pump(Start \o x)) + Len(Pump(Sub(Short, h + 1, i - 1))) + 1

PumpedMsg(m) == IF ~m.ok THEN m
                ELSE [m EXCEPT !.f = [i \in 1 .. 6 |-> Pump(m.f[i])], !.sd = [i \in DOMAIN m.sd |-> Pump(m.sd[i])], !.text = Pump(m.text)]
Alike ==
  Fair => LET s == ParseRes(t, Short, eof)
              l == ParseRes(t, Long, eof)
          IN  /\ l.res = s.res
              /\ l.inc = s.inc
              /\ l.rest = At(s.rest)
              /\ s.res \in {"msg", "incmsg"} => l.d = Pump(s.d) /\ ParseMsg(l.d) = PumpedMsg(ParseMsg(s.d))
===============================================================================
