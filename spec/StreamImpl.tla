----------------------------- MODULE StreamImpl -----------------------------
(* A rate-changing block between two bounded channels: inputs 1..N arrive,    *)
(* input i yields the outputs Det(i-1)+1..Det(i), of which a call may find    *)
(* room for only a part. Mode "pend" keeps the surplus for the next call;     *)
(* "truncate" writes what fits and forgets the rest; "exact" only takes the   *)
(* inputs whose nominal output count fits (none, when the room is smaller     *)
(* than one input's outputs) and also forgets; "replay" keeps a surplus but   *)
(* offers it again from its start.                                            *)
EXTENDS Integers, Sequences
CONSTANTS N, P, Q, CI, CO, Mode
VARIABLES fed, ich, och, used, pend, got
vars == <<fed, ich, och, used, pend, got>>
Det(u) == (u * P + (IF u > 0 THEN 1 ELSE 0)) \div Q   \* outputs the first u inputs determine
Range(a, b) == [i \in 1..(IF b > a THEN b - a ELSE 0) |-> a + i]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Init == fed = 0 /\ ich = 0 /\ och = <<>> /\ used = 0 /\ pend = <<>> /\ got = <<>>
Feed == \E k \in 1..(CI - ich) : fed + k <= N /\ fed' = fed + k /\ ich' = ich + k /\ UNCHANGED <<och, used, pend, got>>
Drain == och # <<>> /\ \E k \in 1..Len(och) : got' = got \o SubSeq(och, 1, k) /\ och' = SubSeq(och, k + 1, Len(och)) /\ UNCHANGED <<fed, ich, used, pend>>
Room == CO - Len(och)
Deliver == /\ pend # <<>> /\ Room > 0
           /\ LET k == Min(Room, Len(pend)) IN
                /\ och' = och \o SubSeq(pend, 1, k)
                /\ pend' = IF Mode = "replay" /\ k < Len(pend) THEN pend ELSE SubSeq(pend, k + 1, Len(pend))
           /\ UNCHANGED <<fed, ich, used, got>>
Take == IF Mode = "exact" THEN Min(ich, (Room * Q) \div P) ELSE Min(ich, Max(1, (Room * Q) \div P))
Run == /\ pend = <<>> /\ ich > 0 /\ Room > 0
       /\ LET y == Range(Det(used), Det(used + Take)) k == Min(Room, Len(y)) IN
            /\ och' = och \o SubSeq(y, 1, k)
            /\ pend' = IF Mode \in {"pend", "replay"} THEN SubSeq(y, k + 1, Len(y)) ELSE <<>>
            /\ used' = used + Take /\ ich' = ich - Take
       /\ UNCHANGED <<fed, got>>
Done == used = N /\ och = <<>> /\ pend = <<>> /\ UNCHANGED vars
Next == Feed \/ Drain \/ Deliver \/ Run \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Feed) /\ WF_vars(Drain) /\ WF_vars(Deliver) /\ WF_vars(Run)
(* nothing lost, repeated or invented: what exists beyond the block is the determined stream *)
Exact == got \o och \o pend = Range(0, Det(used))
Fits == Len(och) <= CO /\ ich <= CI
Completes == <>(got = Range(0, Det(N)))
=============================================================================
