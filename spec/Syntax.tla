-------------------------------- MODULE Syntax --------------------------------
(***************************************************************************)
(* The bytes of syslog messages: fields, structured data elements, framing *)
(* of the three transports.  Byte strings are sequences of 0..255.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SP == 32
DASH == 45
QUOTE == 34
BACKSL == 92
LBR == 91
RBR == 93
EQ == 61

Bytes == 0 .. 255
Sub(b, i, j) == SubSeq(b, i, j)
From(b, i) == SubSeq(b, i, Len(b))

\* first position of the byte x in b from i, 0 if there is none
\* (by pieces of 64 bytes: TLC is slow with deep recursions)
RECURSIVE FindAny(_, _, _)
FindAny(b, X, i) ==
  LET to == IF Len(b) < i + 63 THEN Len(b) ELSE i + 63
  IN  IF i > Len(b) THEN 0
      ELSE IF \E k \in i .. to : b[k] \in X
      THEN CHOOSE k \in i .. to : b[k] \in X /\ \A j \in i .. k - 1 : b[j] \notin X
      ELSE FindAny(b, X, to + 1)
Find(b, x, i) == FindAny(b, {x}, i)

Has(b, X) == \E k \in 1 .. Len(b) : b[k] \in X

------------------------------------------------------------------------------
(* Structured data *)

\* an element starts with [ at i; the position of its ], 0 if it has none:
\* the first ] outside of quotes; inside quotes a backslash escapes the next byte and ] must be escaped
RECURSIVE ScanElem(_, _, _)
ScanElem(b, i, quoted) ==
  LET k == FindAny(b, IF quoted THEN {BACKSL, RBR, QUOTE} ELSE {RBR, QUOTE}, i) IN
  CASE k = 0 -> 0
    [] b[k] = BACKSL -> ScanElem(b, k + 2, TRUE)
    [] b[k] = QUOTE -> ScanElem(b, k + 1, ~quoted)
    [] b[k] = RBR -> IF quoted THEN 0 ELSE k

\* what is between the brackets: an id alone, or an id and something that ends with the quote of a value
GoodElem(x) == x # <<>> /\ x[1] # SP /\ (x[Len(x)] = QUOTE \/ ~Has(x, {SP, EQ, QUOTE}))

ElemEnd(b, i) ==
  IF i > Len(b) \/ b[i] # LBR THEN 0
  ELSE LET e == ScanElem(b, i + 1, FALSE)
       IN  IF e = 0 \/ ~GoodElem(Sub(b, i + 1, e - 1)) THEN 0 ELSE e

\* the elements that start at i: positions <<first, last>>; <<>> if there is none; stops where no [ follows
RECURSIVE Elems(_, _)
Elems(b, i) ==
  IF i > Len(b) \/ b[i] # LBR THEN [ok |-> TRUE, l |-> <<>>, next |-> i]
  ELSE LET e == ElemEnd(b, i)
       IN  IF e = 0 THEN [ok |-> FALSE, l |-> <<>>, next |-> i]
           ELSE LET r == Elems(b, e + 1)
                IN  [ok |-> r.ok, l |-> << <<i, e>> >> \o r.l, next |-> r.next]

------------------------------------------------------------------------------
(* Messages *)

BadMsg == [ok |-> FALSE]

\* the positions of the spaces that end the first n fields, from i; <<>> when a field is empty or missing
RECURSIVE FieldEnds(_, _, _)
FieldEnds(b, i, n) ==
  IF n = 0 THEN <<>>
  ELSE LET e == Find(b, SP, i)
       IN  IF e = 0 \/ e = i THEN <<>>
           ELSE <<e>> \o FieldEnds(b, e + 1, n - 1)

\* six fields, structured data, perhaps a text
ParseMsg(b) ==
  LET ends == FieldEnds(b, 1, 6) IN
  IF Len(ends) < 6 THEN BadMsg
  ELSE LET start(k) == IF k = 1 THEN 1 ELSE ends[k - 1] + 1
           fields == [k \in 1 .. 6 |-> Sub(b, start(k), ends[k] - 1)]
           s == ends[6] + 1
           msg(sd, text) == [ok |-> TRUE, f |-> fields, sd |-> sd, text |-> text]
       IN  IF s > Len(b) THEN BadMsg
           ELSE IF b[s] = DASH THEN
             IF s = Len(b) THEN msg(<<>>, <<>>)
             ELSE IF b[s + 1] = SP THEN msg(<<>>, From(b, s + 2)) ELSE BadMsg
           ELSE LET r == Elems(b, s) IN
             IF ~r.ok \/ r.l = <<>> THEN BadMsg
             ELSE LET els == [k \in 1 .. Len(r.l) |-> Sub(b, r.l[k][1], r.l[k][2])] IN
                  IF r.next > Len(b) THEN msg(els, <<>>)
                  ELSE IF b[r.next] = SP THEN msg(els, From(b, r.next + 1)) ELSE BadMsg

WellFormed(b) == ParseMsg(b).ok

------------------------------------------------------------------------------
(* Framing *)

Digit(x) == x \in 48 .. 57

RECURSIVE DecVal(_)
DecVal(b) == IF b = <<>> THEN 0 ELSE 10 * DecVal(Sub(b, 1, Len(b) - 1)) + (b[Len(b)] - 48)

\* the longest header of RFC 5425 that is waited for
MaxHeader == 20
\* lengths beyond this are as good as infinite: never complete (and kept out of 32 bit arithmetic)
MaxDigits == 9
\* the largest length of the platform
MaxLenDigits == << 57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55 >>

RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == i > Len(a) \/ a[i] < b[i] \/ (a[i] = b[i] /\ LexLeq(a, b, i + 1))
Fits(h) == Len(h) < Len(MaxLenDigits) \/ (Len(h) = Len(MaxLenDigits) /\ LexLeq(h, MaxLenDigits, 1))

\* the first byte that makes it impossible for b to start with a length and a space, 0 if none
RECURSIVE HeaderFault(_, _, _)
HeaderFault(b, i, k) ==
  IF k > Len(b) THEN 0
  ELSE IF b[k] = SP THEN IF k = i THEN k ELSE 0
  ELSE IF ~Digit(b[k]) \/ k - i + 1 > MaxHeader - 1 THEN k
  ELSE HeaderFault(b, i, k + 1)

\* the frame of b that starts at i < Len(b), as
\*   st    "frame"  whole; its content is from..to, the next frame starts at next
\*         "tail"   cut by the end of b; its content is from..to
\*         "head"   cut by the end of b in its header
\*         "lost"   it can't be known where it ends; known for sure at the byte next - 1, possibly from may
Frame(t, b, i) ==
  CASE t \in {"nul", "lf"} ->
         LET e == Find(b, IF t = "nul" THEN 0 ELSE 10, i)
         IN  IF e = 0 THEN [st |-> "tail", from |-> i, to |-> Len(b), next |-> Len(b) + 1, may |-> 0]
             ELSE [st |-> "frame", from |-> i, to |-> e - 1, next |-> e + 1, may |-> e]
    [] t = "rfc" ->
         LET s == Find(b, SP, i)
             h == Sub(b, i, s - 1)
             v == IF Len(h) > MaxDigits THEN 1000000000 ELSE DecVal(h)
             cut == Len(b) - i + 1 < MaxHeader
             w == HeaderFault(b, i, i)
             \* without a space a fault is only looked for in the end
             known == IF s = 0 \/ s - i + 1 > MaxHeader THEN i + MaxHeader - 1 ELSE s
         IN  IF s = 0 /\ cut
             THEN [st |-> "head", from |-> i, to |-> Len(b), next |-> Len(b) + 1, may |-> w]
             ELSE IF s = 0 \/ w # 0 \/ ~Fits(h)
             THEN [st |-> "lost", from |-> i, to |-> Len(b), next |-> known + 1, may |-> IF w = 0 THEN s ELSE w]
             ELSE IF s + v > Len(b)
             THEN [st |-> "tail", from |-> s + 1, to |-> Len(b), next |-> Len(b) + 1, may |-> 0]
             ELSE [st |-> "frame", from |-> s + 1, to |-> s + v, next |-> s + v + 1, may |-> s + v]

\* what a receiver has to deliver for the stream b, see Receiver.tla
RECURSIVE ItemsFrom(_, _, _)
ItemsFrom(t, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET f == Frame(t, b, i)
           d == Sub(b, f.from, f.to)
           good == WellFormed(d)
           it(k, end, may, tail) == [end |-> end, may |-> may, kind |-> k, tail |-> tail, d |-> d]
           never == Len(b) + 1
       IN  CASE f.st = "frame" ->
                  << it(IF good THEN "msg" ELSE "err", f.next - 1, f.may, FALSE) >> \o ItemsFrom(t, b, f.next)
             [] f.st = "tail" /\ t = "nul" -> << it(IF good THEN "msg" ELSE "err", never, never, TRUE) >>
             [] f.st = "tail" /\ t # "nul" -> << it(IF good THEN "incmsg" ELSE "inc", never, never, TRUE) >>
             [] f.st = "head" -> << it(IF f.may > 0 THEN "lost" ELSE "err", never, IF f.may > 0 THEN f.may ELSE never, TRUE) >>
             [] f.st = "lost" -> << it("lost", f.next - 1, f.may, FALSE) >>

Items(t, b) == ItemsFrom(t, b, 1)

\* what Parse(b, t, eof) gives: no frame yet, a message or an error, and what remains
ParseRes(t, b, eof) ==
  IF t = "none"
  THEN [res |-> IF WellFormed(b) THEN "msg" ELSE "err", inc |-> FALSE, d |-> b, rest |-> 0]
  ELSE IF b = <<>> THEN [res |-> "nothing", inc |-> FALSE, d |-> <<>>, rest |-> 0]
  ELSE LET f == Frame(t, b, 1)
           d == Sub(b, f.from, f.to)
           good == WellFormed(d)
           R(r, inc, rest) == [res |-> r, inc |-> inc, d |-> d, rest |-> rest]
       IN  CASE f.st = "frame" -> R(IF good THEN "msg" ELSE "err", FALSE, f.next)
             [] f.st = "lost" -> R("lost", FALSE, 0)
             [] ~eof -> IF f.st = "head" /\ f.may > 0 THEN R("maybe", FALSE, 0) ELSE R("nothing", FALSE, 0)
             [] f.st = "head" -> R("lost", FALSE, 0)
             [] t = "nul" -> R(IF good THEN "msg" ELSE "err", FALSE, 0)
             [] OTHER -> R(IF good THEN "incmsg" ELSE "inc", TRUE, 0)
=============================================================================
