--------------------------------- MODULE Text ---------------------------------
(* Bytes of numbers, dates and names *)
EXTENDS Integers, Sequences

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
\* exactly w digits
RECURSIVE Pad(_, _)
Pad(n, w) == IF w = 0 THEN <<>> ELSE Pad(n \div 10, w - 1) \o <<48 + (n % 10)>>

Min2(a, b) == IF a < b THEN a ELSE b

\* a header field: printable ASCII, never empty, of a limited length
Clean(s, max) ==
  IF s = <<>> THEN <<45>>
  ELSE [k \in 1 .. Min2(Len(s), max) |-> IF s[k] \in 33 .. 126 THEN s[k] ELSE 37]
MaxHost == 255
MaxApp == 48
MaxProc == 128
MaxMsgid == 32

\* trailing white space of a text (UTF-8)
EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Blank1 == {9, 10, 11, 12, 13, 32}
Blank3 == { <<225, 154, 128>>, <<226, 128, 168>>, <<226, 128, 169>>, <<226, 128, 175>>, <<226, 129, 159>>, <<227, 128, 128>> }
          \cup { <<226, 128, x>> : x \in 128 .. 138 }
RECURSIVE Trim(_)
Trim(s) ==
  IF s = <<>> THEN s
  ELSE IF s[Len(s)] \in Blank1 THEN Trim(SubSeq(s, 1, Len(s) - 1))
  ELSE IF EndsWith(s, <<194, 133>>) \/ EndsWith(s, <<194, 160>>) THEN Trim(SubSeq(s, 1, Len(s) - 2))
  ELSE IF Len(s) >= 3 /\ SubSeq(s, Len(s) - 2, Len(s)) \in Blank3 THEN Trim(SubSeq(s, 1, Len(s) - 3))
  ELSE s

(* timestamps: a record of year, month, day, hour, minute, second, microsecond, offset in minutes *)
RECURSIVE StripZeros(_)
StripZeros(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN StripZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
OffText(o) == IF o = 0 THEN <<90>>
              ELSE LET a == IF o < 0 THEN -o ELSE o
                   IN  <<IF o < 0 THEN 45 ELSE 43>> \o Pad(a \div 60, 2) \o <<58>> \o Pad(a % 60, 2)
TimeText(t) ==
  Pad(t.y, 4) \o <<45>> \o Pad(t.mo, 2) \o <<45>> \o Pad(t.d, 2) \o <<84>> \o Pad(t.h, 2) \o <<58>> \o Pad(t.mi, 2)
  \o <<58>> \o Pad(t.s, 2)
  \o (IF t.us = 0 THEN <<>> ELSE <<46>> \o StripZeros(Pad(t.us, 6)))
  \o OffText(t.off)

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31

\* the value of digits from..to, -1 if they aren't all digits
RECURSIVE Val(_)
Val(b) == IF b = <<>> THEN 0
          ELSE IF b[Len(b)] \notin 48 .. 57 THEN -1
          ELSE LET r == Val(SubSeq(b, 1, Len(b) - 1)) IN IF r < 0 THEN r ELSE r * 10 + b[Len(b)] - 48
\* b is the text of a time, exactly as it is encoded
CanonTime(b) ==
  /\ Len(b) >= 20
  /\ LET v(i, j) == Val(SubSeq(b, i, j))
         fracEnd == IF b[20] # 46 THEN 19
                    ELSE CHOOSE e \in 20 .. Len(b) : (\A k \in 21 .. e : b[k] \in 48 .. 57) /\ (e = Len(b) \/ b[e + 1] \notin 48 .. 57)
         z == SubSeq(b, fracEnd + 1, Len(b))
     IN  /\ b[5] = 45 /\ b[8] = 45 /\ b[11] = 84 /\ b[14] = 58 /\ b[17] = 58
         /\ v(1, 4) >= 0 /\ v(6, 7) \in 1 .. 12 /\ v(9, 10) >= 1 /\ v(9, 10) <= DaysIn(v(1, 4), v(6, 7))
         /\ v(12, 13) \in 0 .. 23 /\ v(15, 16) \in 0 .. 59 /\ v(18, 19) \in 0 .. 59
         /\ fracEnd = 19 \/ (fracEnd \in 21 .. 26 /\ b[fracEnd] # 48)
         /\ \/ z = <<90>>
            \/ /\ Len(z) = 6 /\ z[1] \in {43, 45} /\ z[4] = 58
               /\ Val(SubSeq(z, 2, 3)) \in 0 .. 23 /\ Val(SubSeq(z, 5, 6)) \in 0 .. 59
               /\ SubSeq(z, 2, 6) # <<48, 48, 58, 48, 48>>
=============================================================================
