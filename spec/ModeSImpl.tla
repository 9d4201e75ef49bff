------------------------------ MODULE ModeSImpl ------------------------------
(* How ADSBDecoderBlock finds messages in a stream it sees in pieces: it      *)
(* looks at the positions from which a whole long message fits into what is   *)
(* there, jumps over what it finds, and lets go of exactly the positions      *)
(* looked at. A message may be found half a sample late as well (twice, if    *)
(* the position after its start is looked at).                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Total, Long, Short, Room, KeepOverlap, KeepSkip, LimitRoom
VARIABLES msgs, fed, from, got, room, lost
vars == <<msgs, fed, from, got, room, lost>>
\* messages: start -> length, apart from each other by at least a sample
Layouts == {m \in UNION {[S -> {Short, Long}] : S \in {X \in SUBSET (0..(Total - Short)) : \A p, q \in X : p < q => p + Short < q}} :
  \A p \in DOMAIN m : p + m[p] <= Total /\ \A q \in DOMAIN m : p < q => p + m[p] < q}
Init == msgs \in Layouts /\ fed = 0 /\ from = 0 /\ got = <<>> /\ room = Room /\ lost = FALSE
Feed == fed < Total /\ \E n \in 1..(Total - fed) : fed' = fed + n /\ UNCHANGED <<msgs, from, got, room, lost>>
Take == \E n \in 1..(Room - room) : room' = room + n /\ UNCHANGED <<msgs, fed, from, got, lost>>
\* a message starts at j or (seen late) at j - 1
At(j) == IF j \in DOMAIN msgs THEN j ELSE IF j - 1 \in DOMAIN msgs THEN j - 1 ELSE -1
RECURSIVE Scan(_, _)
\* positions j..end-1: <<next position, messages found>>
Scan(j, end) == IF j >= end THEN <<j, <<>>>>
  ELSE IF At(j) >= 0 THEN LET p == At(j) r == Scan(j + msgs[p], end) IN <<r[1], <<p>> \o r[2]>>
  ELSE Scan(j + 1, end)
Call ==
  /\ fed - from > Long /\ room > 0
  /\ LET lim == from + Long + room * Short  top == IF LimitRoom /\ lim < fed THEN lim ELSE fed
         r == Scan(from, top - Long)  f == r[2]  k == IF Len(f) < room THEN Len(f) ELSE room IN
     /\ got' = got \o SubSeq(f, 1, k) /\ room' = room - k /\ lost' = (lost \/ k < Len(f))
     /\ from' = IF ~KeepOverlap THEN top ELSE IF KeepSkip THEN r[1] ELSE top - Long
  /\ UNCHANGED <<msgs, fed>>
Next == Feed \/ Take \/ Call
Spec == Init /\ [][Next]_vars
InOrder == \A i, k \in DOMAIN got : i < k => got[i] < got[k]           \* once each, in order
Due == {p \in DOMAIN msgs : p + Long < fed}
Prompt == (fed - from <= Long) => Due \subseteq {got[i] : i \in DOMAIN got}
Real == \A i \in DOMAIN got : got[i] \in DOMAIN msgs /\ from <= fed
=============================================================================
