------------------------------ MODULE MCRegistry ------------------------------
(* Every interleaving of registrations and parses that read one element at a time: *)
(* the answers are those that Registry.tla allows, the first one under a name stays *)
EXTENDS Registry
CONSTANTS NW, Rounds
VARIABLES got,    \* items of the parse in progress of each worker
          first,  \* history: the decoder that took a name first
          left    \* operations left for each worker

Nm(c) == <<c>>
Ds == << [name |-> Nm(97), kind |-> "exact", tq |-> FALSE, sid |-> <<120>>],
         [name |-> Nm(97), kind |-> "prefix", tq |-> FALSE, sid |-> <<120>>],
         [name |-> Nm(98), kind |-> "bare", tq |-> FALSE, sid |-> <<120>>],
         [name |-> Nm(99), kind |-> "picky", tq |-> FALSE, sid |-> <<120>>] >>
Bare == <<LBR, 120, RBR>>
With(c) == <<LBR, 120, SP, 97, EQ, QUOTE, c, QUOTE, RBR>>
Other == <<LBR, 121, RBR>>
Odd == <<LBR, 120, SP, QUOTE, QUOTE, RBR>>
Messages == { <<Bare, With(97), Bare>>, <<With(33), Odd, Other>> }

vars == <<gvars, got, first, left>>
Init == RegInit(Ds, NW) /\ got = [w \in 1 .. NW |-> <<>>] /\ first = <<>> /\ left = [w \in 1 .. NW |-> Rounds]

Item(d, el) == [who |-> d, b |-> el, el |-> el]
Read(w) ==
  /\ parse[w].on /\ Len(got[w]) < Len(parse[w].els)
  /\ LET el == parse[w].els[Len(got[w]) + 1]
         C == {d \in reg : Claims(d, el)}
     IN  got' = [got EXCEPT ![w] = Append(@, IF C = {} THEN Item(0, el) ELSE Item(CHOOSE d \in C : TRUE, el))]
  /\ UNCHANGED <<gvars, first, left>>
Clean1(w) == LET G == got[w] IN
  [i \in 1 .. Len(G) |-> [who |-> G[i].who, b |-> G[i].b]]
\* what isn't well formed and has no decoder is dropped
Kept1(w) == SelectSeq(Clean1(w), LAMBDA it : it.who # 0 \/ WellFormedElem(it.b))
CanReturn(w) == parse[w].on /\ Len(got[w]) = Len(parse[w].els)

Next == \E w \in 1 .. NW :
  \/ /\ left[w] > 0 /\ ~parse[w].on /\ adding[w] = {}
     /\ left' = [left EXCEPT ![w] = @ - 1]
     /\ \/ \E D \in {{1}, {2}, {3}, {4}, {1, 2}, {2, 3}} : RegisterCall(w, D)
        \/ \E m \in Messages : ParseCall(w, m)
     /\ UNCHANGED <<got, first>>
  \/ \E d \in adding[w] : /\ DoRegister(w, d)
                          /\ first' = IF Taken(d) THEN first ELSE Append(first, d)
                          /\ UNCHANGED <<got, left>>
  \/ Read(w)
  \/ CanReturn(w) /\ ParseReturn(w, Kept1(w)) /\ got' = [got EXCEPT ![w] = <<>>] /\ UNCHANGED <<first, left>>
Spec == Init /\ [][Next]_vars

OnePerName == \A a, b \in reg : decs[a].name = decs[b].name => a = b
FirstKept == reg = {first[i] : i \in 1 .. Len(first)}
Accepted == \A w \in 1 .. NW : CanReturn(w) => Explained(Kept1(w), parse[w].els, parse[w].from)
\* the specification isn't vacuous: nothing can be dropped, or left unknown when its decoder is there
Strict == \A w \in 1 .. NW : CanReturn(w) =>
  \A i \in 1 .. Len(Kept1(w)) :
     LET K == Kept1(w)
         less == SubSeq(K, 1, i - 1) \o SubSeq(K, i + 1, Len(K))
     IN  WellFormedElem(K[i].b) => (~Explained(less, parse[w].els, parse[w].from)
            /\ ((\E d \in parse[w].from : Claims(d, K[i].b)) => ~Explained([K EXCEPT ![i] = [who |-> 0, b |-> K[i].b]], parse[w].els, parse[w].from)))
=============================================================================
