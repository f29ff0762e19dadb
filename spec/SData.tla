-------------------------------- MODULE SData --------------------------------
(***************************************************************************)
(* Structured data elements: how values become elements and how they are   *)
(* read back.                                                              *)
(* A value is a record of kind k:                                          *)
(*   "s" a scalar whose text is b (str: it's a string)   "nil" nothing     *)
(*   "list" l a list    "ptr", "iface" v what it refers to                 *)
(*   "bad" something that has no text                                      *)
(***************************************************************************)
EXTENDS Syntax, TLC

Escaped == {QUOTE, BACKSL, RBR}
RECURSIVE Esc(_)
Esc(b) == IF b = <<>> THEN <<>>
          ELSE (IF b[1] \in Escaped THEN <<BACKSL, b[1]>> ELSE <<b[1]>>) \o Esc(Tail(b))
RECURSIVE Unesc(_)
Unesc(b) == IF b = <<>> THEN <<>>
            ELSE IF b[1] = BACKSL /\ Len(b) > 1 /\ b[2] \in Escaped THEN <<b[2]>> \o Unesc(SubSeq(b, 3, Len(b)))
            ELSE <<b[1]>> \o Unesc(Tail(b))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* the texts of a value
RECURSIVE Texts(_)
Texts(v) == CASE v.k = "s" -> <<v.b>>
              [] v.k \in {"nil", "bad"} -> <<>>
              [] v.k \in {"ptr", "iface"} -> Texts(v.v)
              [] v.k = "list" -> Flat([i \in 1 .. Len(v.l) |-> Texts(v.l[i])])
RECURSIVE Unsupported(_)
Unsupported(v) == CASE v.k = "bad" -> TRUE
                    [] v.k \in {"ptr", "iface"} -> Unsupported(v.v)
                    [] v.k = "list" -> \E i \in 1 .. Len(v.l) : Unsupported(v.l[i])
                    [] OTHER -> FALSE
\* fields of structs that are left out
IsEmpty(v) == CASE v.k = "s" -> v.str /\ v.b = <<>>
                [] v.k = "nil" -> TRUE
                [] v.k = "list" -> v.l = <<>>
                [] OTHER -> FALSE

RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i > Len(a) THEN i <= Len(b)
                 ELSE IF i > Len(b) THEN FALSE
                 ELSE IF a[i] # b[i] THEN a[i] < b[i]
                 ELSE Less(a, b, i + 1)
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> THEN <<x>>
                ELSE IF Less(x.name, s[1].name, 1) THEN <<x>> \o s
                ELSE <<s[1]>> \o Insert(x, Tail(s))
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(s[1], Sorted(Tail(s)))

\* the entries of an element of kind "map" (sorted) or "struct" (in order, without the empty ones)
Kept(el) == IF el.kind = "map" THEN Sorted(el.entries)
            ELSE SelectSeq(el.entries, LAMBDA x : ~x.skip /\ ~IsEmpty(x.v))
Fails(el) == IF el.kind = "map" THEN \E i \in 1 .. Len(el.entries) : Unsupported(el.entries[i].v)
             ELSE \E i \in 1 .. Len(el.entries) :
                    LET x == el.entries[i] IN
                    ~x.skip /\ (IF IsEmpty(x.v) THEN x.mand ELSE Unsupported(x.v))
\* <<name, value>> of every parameter
Params(el) == LET K == Kept(el) IN
  Flat([i \in 1 .. Len(K) |-> LET T == Texts(K[i].v) IN [j \in 1 .. Len(T) |-> <<K[i].name, T[j]>>]])

EncParams(P) == Flat([i \in 1 .. Len(P) |-> <<SP>> \o P[i][1] \o <<EQ, QUOTE>> \o Esc(P[i][2]) \o <<QUOTE>>])
EncElem(id, P) == <<LBR>> \o id \o EncParams(P) \o <<RBR>>
Encode(el) == EncElem(el.id, Params(el))

------------------------------------------------------------------------------
(* Reading *)

NameByte == (33 .. 126) \ {EQ, RBR, QUOTE}
RECURSIVE NameEnd(_, _)
NameEnd(b, i) == IF i <= Len(b) /\ b[i] \in NameByte THEN NameEnd(b, i + 1) ELSE i
\* the closing quote of the value that starts after i
RECURSIVE ValueEnd(_, _)
ValueEnd(b, i) == CASE i > Len(b) -> 0
                    [] b[i] = BACKSL -> ValueEnd(b, i + 2)
                    [] b[i] = RBR -> 0
                    [] b[i] = QUOTE -> i
                    [] OTHER -> ValueEnd(b, i + 1)
RECURSIVE SkipSpaces(_, _)
SkipSpaces(b, i) == IF i <= Len(b) /\ b[i] = SP THEN SkipSpaces(b, i + 1) ELSE i

NoElem == [ok |-> FALSE]
\* the parameters from i to the ] at the end of b; strict: exactly one space before each
RECURSIVE ReadParams(_, _, _)
ReadParams(b, i, strict) ==
  IF i = Len(b) THEN (IF b[i] = RBR THEN [ok |-> TRUE, l |-> <<>>] ELSE NoElem)
  ELSE IF i > Len(b) \/ b[i] # SP THEN NoElem
  ELSE LET s == IF strict THEN i + 1 ELSE SkipSpaces(b, i)
           e == NameEnd(b, s)
       IN  IF e = s \/ e + 1 >= Len(b) \/ b[e] # EQ \/ b[e + 1] # QUOTE THEN NoElem
           ELSE LET q == ValueEnd(b, e + 2)
                IN  IF q = 0 THEN NoElem
                    ELSE LET r == ReadParams(b, q + 1, strict)
                         IN  IF r.ok THEN [ok |-> TRUE, l |-> << <<SubSeq(b, s, e - 1), SubSeq(b, e + 2, q - 1)>> >> \o r.l] ELSE NoElem

\* an element: its id, names and values as they are written
ReadElem(b, strict) ==
  IF Len(b) < 3 \/ b[1] # LBR THEN NoElem
  ELSE LET e == NameEnd(b, 2)
           r == ReadParams(b, e, strict)
       IN  IF e = 2 \/ ~r.ok THEN NoElem
           ELSE [ok |-> TRUE, id |-> SubSeq(b, 2, e - 1), l |-> r.l]
WellFormedElem(b) == ReadElem(b, TRUE).ok

------------------------------------------------------------------------------
(* timeQuality *)
TQId == <<116, 105, 109, 101, 81, 117, 97, 108, 105, 116, 121>>
TzKnown == <<116, 122, 75, 110, 111, 119, 110>>
IsSynced == <<105, 115, 83, 121, 110, 99, 101, 100>>
SyncAcc == <<115, 121, 110, 99, 65, 99, 99, 117, 114, 97, 99, 121>>

TQValid(q) == (q.sync => q.tz) /\ (q.has => q.sync)
\* q.acc is the decimal text of the accuracy
TQEncode(q) == EncElem(TQId, (IF q.tz THEN << <<TzKnown, <<49>>>> >> ELSE <<>>)
                             \o (IF q.sync THEN << <<IsSynced, <<49>>>> >> ELSE <<>>)
                             \o (IF q.has THEN << <<SyncAcc, q.acc>> >> ELSE <<>>))

AllDigits(b) == b # <<>> /\ \A k \in 1 .. Len(b) : Digit(b[k])
IntLike(b) == AllDigits(b) \/ (Len(b) > 1 /\ b[1] \in {43, 45} /\ AllDigits(Tail(b)))
CanonInt(b) ==
  \/ b = <<48>>
  \/ AllDigits(b) /\ b[1] # 48 /\ Fits(b)
  \/ b # <<>> /\ b[1] = 45 /\ AllDigits(Tail(b)) /\ b[2] # 48 /\ Fits(Tail(b))
\* the last value of a parameter, <<>> if there is none
RECURSIVE Last(_, _)
Last(l, name) == IF l = <<>> THEN <<>> ELSE IF l[Len(l)][1] = name THEN l[Len(l)][2] ELSE Last(SubSeq(l, 1, Len(l) - 1), name)

\* "no", "yes" (with its value) or "any": repeated parameters, spaces and odd integers are left open
TQRead(b) ==
  LET r == ReadElem(b, FALSE)
      bit(n) == Last(r.l, n) = <<49>>
      has == \E i \in 1 .. Len(r.l) : r.l[i][1] = SyncAcc
      q == [tz |-> bit(TzKnown), sync |-> bit(IsSynced), has |-> has, acc |-> Last(r.l, SyncAcc)]
      known == \A i \in 1 .. Len(r.l) :
                 \/ r.l[i][1] \in {TzKnown, IsSynced} /\ r.l[i][2] \in {<<48>>, <<49>>}
                 \/ r.l[i][1] = SyncAcc /\ IntLike(r.l[i][2])
      dup == \E i, j \in 1 .. Len(r.l) : i < j /\ r.l[i][1] = r.l[j][1]
  IN  IF ~r.ok \/ (r.ok /\ r.id # TQId) THEN [is |-> "no"]
      ELSE IF ~known THEN [is |-> "no"]
      ELSE IF dup THEN [is |-> "any"]
      ELSE IF ~TQValid(q) THEN [is |-> "no"]
      ELSE IF ~WellFormedElem(b) \/ (has /\ ~CanonInt(q.acc)) THEN [is |-> "any"]
      ELSE [is |-> "yes", q |-> q]
=============================================================================
