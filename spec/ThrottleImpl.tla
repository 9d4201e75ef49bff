---------------------------- MODULE ThrottleImpl ----------------------------
(* The throttle's algorithm in discrete time: release, advance the tick by    *)
(* one interval, sleep until the tick (oversleeping up to O) or, when late,   *)
(* move the tick to now. Checked: rate over every window, no drift, delay.    *)
EXTENDS Integers, Sequences
CONSTANTS I, O, Gap, N, Bug
VARIABLES now, tick, rel, pc, busy, lateN
vars == <<now, tick, rel, pc, busy, lateN>>
Init == now = 0 /\ tick = 0 /\ rel = <<>> /\ pc = "idle" /\ busy = TRUE /\ lateN = 0
(* a call finds a sample, possibly after the environment was away for g *)
Call == /\ pc = "idle" /\ Len(rel) < N
        /\ \E g \in 0..Gap : now' = now + g /\ busy' = (busy /\ g = 0) /\ rel' = Append(rel, now + g)
        /\ tick' = IF Bug = "drift" THEN now' + I ELSE tick + I
        /\ pc' = "sleep" /\ UNCHANGED lateN
Sleep == /\ pc = "sleep" /\ pc' = "idle" /\ UNCHANGED <<rel, busy>>
         /\ IF now < tick
            THEN /\ \E o \in 0..O : now' = (IF Bug = "early" THEN tick - 1 ELSE tick) + o
                 /\ UNCHANGED <<tick, lateN>>
            ELSE /\ tick' = (IF Bug = "burst" THEN tick ELSE now) /\ now' = now /\ lateN' = lateN + 1
Next == Call \/ Sleep
Spec == Init /\ [][Next]_vars
Rate == \A i, j \in 1..Len(rel) : i < j => rel[j] - rel[i] >= (j - i - 1) * I
(* kept supplied, and sleeps short of a whole interval late: the k-th release is k intervals after the start *)
NoDrift == (busy /\ O < I) => \A k \in 1..Len(rel) : rel[k] <= (k - 1) * I + O
Delay == pc = "sleep" => tick <= now + I \/ tick <= rel[Len(rel)] + I
=============================================================================
