------------------------------ MODULE MCSlabSeq ------------------------------
(* The pool's interface, one user: generates the scripts replayed on it.      *)
EXTENDS Integers, FiniteSets
CONSTANTS Cap, Max
VARIABLES held, n
Init == held = {} /\ n = 0
t == n < Max /\ (IF Cardinality(held) < Cap THEN n' = n + 1 /\ held' = held \cup {n + 1} ELSE UNCHANGED n /\ UNCHANGED held)
r1 == 1 \in held /\ held' = held \ {1} /\ n' = n
r2 == 2 \in held /\ held' = held \ {2} /\ n' = n
r3 == 3 \in held /\ held' = held \ {3} /\ n' = n
r4 == 4 \in held /\ held' = held \ {4} /\ n' = n
r5 == 5 \in held /\ held' = held \ {5} /\ n' = n
r6 == 6 \in held /\ held' = held \ {6} /\ n' = n
Next == t \/ r1 \/ r2 \/ r3 \/ r4 \/ r5 \/ r6
Spec == Init /\ [][Next]_<<held, n>>
Bound == Cardinality(held) <= Cap
=============================================================================
