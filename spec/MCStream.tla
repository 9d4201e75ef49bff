------------------------------ MODULE MCStream ------------------------------
(* Fill levels (in quarters) of a block's input and output channels; yields   *)
(* the feed/call/drain scripts replayed on the real blocks.                   *)
EXTENDS Integers
VARIABLES i, o
Init == i = 0 /\ o = 0
F(k) == i + k <= 4 /\ i' = i + k /\ o' = o
D(k) == k <= o /\ o' = o - k /\ i' = i
f1 == F(1)
f2 == F(2)
f4 == F(4)
d1 == D(1)
d2 == D(2)
d4 == D(4)
c == LET k == IF i < 4 - o THEN i ELSE 4 - o IN i' = i - k /\ o' = o + k
Next == f1 \/ f2 \/ f4 \/ d1 \/ d2 \/ d4 \/ c
Spec == Init /\ [][Next]_<<i, o>>
Levels == i \in 0..4 /\ o \in 0..4
=============================================================================
