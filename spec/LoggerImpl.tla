----------------------------- MODULE LoggerImpl -----------------------------
(* How the logger keeps Logger's promises: look at the size, shift the        *)
(* backups from the oldest down, reopen and write, all inside one critical    *)
(* section.  Lock = FALSE and Down = FALSE are the variants that lose lines.  *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Threads, Lines, Max0, Bk, Lock, Down
VARIABLES pc, left, owner, fs, hand, ref, acked, k
vars == <<pc, left, owner, fs, hand, ref, acked, k>>
(* fs: backup number -> file (a sequence of lines) or None; hand: the number the open handle writes to, or -1 *)
None == <<0>>
Id(t, n) == t * 10 + n
TypeInit == /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> Lines] /\ owner = 0
            /\ fs = [n \in 0..(Bk + 1) |-> IF n = 0 THEN <<>> ELSE None] /\ hand = 0 /\ ref = <<>> /\ acked = {} /\ k = [t \in Threads |-> 0]
Enter(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ (Lock => owner = 0)
            /\ owner' = (IF Lock THEN t ELSE owner) /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED <<left, fs, hand, ref, acked, k>>
Look(t) == /\ pc[t] = "look"
           /\ pc' = [pc EXCEPT ![t] = IF hand # 0 THEN "write" ELSE IF Len(fs[0]) >= Max0 THEN "close" ELSE "write"] /\ UNCHANGED <<left, owner, fs, hand, ref, acked, k>>
Close(t) == /\ pc[t] = "close" /\ hand' = 99 /\ fs' = [fs EXCEPT ![Bk] = None]
            /\ k' = [k EXCEPT ![t] = IF Down THEN Bk ELSE 1] /\ pc' = [pc EXCEPT ![t] = "shift"] /\ UNCHANGED <<left, owner, ref, acked>>
Shift(t) == /\ pc[t] = "shift"                                  \* rename k - 1 to k, for k = Bk .. 1
            /\ IF k[t] \in 1..Bk
               THEN /\ fs' = (IF fs[k[t] - 1] = None THEN fs ELSE [fs EXCEPT ![k[t]] = fs[k[t] - 1], ![k[t] - 1] = None])
                    /\ k' = [k EXCEPT ![t] = IF Down THEN @ - 1 ELSE @ + 1] /\ UNCHANGED <<pc, hand>>
               ELSE /\ fs' = [fs EXCEPT ![0] = IF @ = None THEN <<>> ELSE @] /\ hand' = 0 /\ pc' = [pc EXCEPT ![t] = "write"] /\ UNCHANGED k
            /\ UNCHANGED <<left, owner, ref, acked>>
Write(t) == /\ pc[t] = "write"
            /\ fs' = (IF hand = 0 /\ fs[0] # None THEN [fs EXCEPT ![0] = Append(@, Id(t, left[t]))] ELSE fs)
            /\ ref' = Append(ref, Id(t, left[t])) /\ acked' = acked \union {Id(t, left[t])} /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ pc' = [pc EXCEPT ![t] = "idle"] /\ owner' = (IF Lock THEN 0 ELSE owner) /\ UNCHANGED <<hand, k>>
Next == \E t \in Threads : Enter(t) \/ Look(t) \/ Close(t) \/ Shift(t) \/ Write(t)
Spec == TypeInit /\ [][Next]_vars
F(n) == IF fs[n] = None THEN <<>> ELSE fs[n]
Kept == FoldLeft(LAMBDA a, i: a \o F(Bk - i), <<>>, [i \in 1..(Bk + 1) |-> i - 1])
Quiet == \A t \in Threads : pc[t] = "idle"
(* what is kept is the newest part of what was logged, and only whole files are given up *)
Suffix == Quiet => LET n == Len(Kept) m == Len(ref) IN n <= m /\ \A i \in 1..n : Kept[i] = ref[m - n + i]
Enough == Quiet => Len(Kept) >= Min({Len(ref), Bk * Max0 + 1})
Sizes == Quiet => \A n \in 0..Bk : Len(F(n)) <= Max0 /\ (n > 0 /\ fs[n] # None => Len(F(n)) = Max0)
=============================================================================
