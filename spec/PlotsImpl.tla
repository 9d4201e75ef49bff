----------------------------- MODULE PlotsImpl -----------------------------
(* Time plot, statement by statement: the graph thread drains and refills one *)
(* ring per input and the ring of times; the GUI thread copies them one after *)
(* another. Refines Plots: every frame shows one window for all rings, never  *)
(* older than an earlier frame, and the newest when no call overlaps it.      *)
(* Locked = FALSE is the plot without the graph thread's lock (refuted).      *)
EXTENDS Integers, Sequences
CONSTANTS N, Win, MaxFed, MaxWork, Locked, TryLock, MaxFrames
R == 0..N            \* ring 0 holds the times
VARIABLES fed, ring, cnt, gpc, work, gi, rpc, ri, snap, shown, lock, frames, overlapped
vars == <<fed, ring, cnt, gpc, work, gi, rpc, ri, snap, shown, lock, frames, overlapped>>
Init == /\ fed = 0 /\ cnt = 0 /\ work = 0 /\ gi = 1 /\ ri = 0 /\ gpc = "idle" /\ rpc = "idle"
        /\ ring = [r \in R |-> <<0, 0>>]     \* <<first, length>>: samples first..first+length-1
        /\ snap = [r \in R |-> <<0, 0>>] /\ shown = [r \in R |-> <<0, 0>>] /\ lock = "free" /\ frames = 0 /\ overlapped = FALSE
Feed == /\ fed < MaxFed /\ fed' = fed + 1 /\ UNCHANGED <<ring, cnt, gpc, work, gi, rpc, ri, snap, shown, lock, frames, overlapped>>
(* ---- graph thread *)
Call == /\ gpc = "idle" /\ fed > cnt
        /\ work' = IF fed - cnt > MaxWork THEN MaxWork ELSE fed - cnt
        /\ gpc' = "lock" /\ overlapped' = TRUE /\ UNCHANGED <<fed, ring, cnt, gi, rpc, ri, snap, shown, lock, frames>>
Lock == /\ gpc = "lock" /\ (Locked => lock = "free") /\ lock' = (IF Locked THEN "graph" ELSE lock)
        /\ gpc' = "drain" /\ gi' = 1 /\ UNCHANGED <<fed, ring, cnt, work, rpc, ri, snap, shown, frames, overlapped>>
Ix == IF gi > N THEN 0 ELSE gi
Drop(r) == LET n == ring[r][2] + work IN IF n > Win THEN n - Win ELSE 0
Drain == /\ gpc = "drain" /\ ring' = [ring EXCEPT ![Ix] = <<@[1] + Drop(Ix), @[2] - Drop(Ix)>>]
         /\ gpc' = "fill" /\ UNCHANGED <<fed, cnt, work, gi, rpc, ri, snap, shown, lock, frames, overlapped>>
Fill == /\ gpc = "fill" /\ ring' = [ring EXCEPT ![Ix] = <<@[1], @[2] + work>>]
        /\ IF gi > N THEN gpc' = "unlock" /\ cnt' = cnt + work /\ gi' = gi ELSE gpc' = "drain" /\ gi' = gi + 1 /\ cnt' = cnt
        /\ UNCHANGED <<fed, work, rpc, ri, snap, shown, lock, frames, overlapped>>
Unlock == /\ gpc = "unlock" /\ gpc' = "idle" /\ lock' = (IF Locked THEN "free" ELSE lock)
          /\ UNCHANGED <<fed, ring, cnt, work, gi, rpc, ri, snap, shown, frames, overlapped>>
(* ---- GUI thread *)
Begin == /\ rpc = "idle" /\ frames < MaxFrames /\ frames' = frames + 1 /\ overlapped' = (gpc # "idle")
         /\ IF ~TryLock \/ lock = "free" THEN rpc' = "copy" /\ ri' = 0 /\ lock' = (IF TryLock THEN "gui" ELSE lock)
            ELSE rpc' = "show" /\ ri' = ri /\ lock' = lock
         /\ UNCHANGED <<fed, ring, cnt, gpc, work, gi, snap, shown>>
Copy == /\ rpc = "copy" /\ snap' = [snap EXCEPT ![ri] = ring[ri]]
        /\ IF ri = N THEN rpc' = "show" /\ ri' = 0 /\ lock' = (IF TryLock THEN "free" ELSE lock) ELSE rpc' = "copy" /\ ri' = ri + 1 /\ lock' = lock
        /\ UNCHANGED <<fed, ring, cnt, gpc, work, gi, shown, frames, overlapped>>
Show == /\ rpc = "show" /\ shown' = snap /\ rpc' = "idle"
        /\ UNCHANGED <<fed, ring, cnt, gpc, work, gi, ri, snap, lock, frames, overlapped>>
Graph == Call \/ Lock \/ Drain \/ Fill \/ Unlock
Gui == Begin \/ Copy \/ Show
Next == Feed \/ Graph \/ Gui
Spec == Init /\ [][Next]_vars /\ WF_vars(Graph) /\ WF_vars(Gui)
End(t) == t[0][1] + t[0][2]
Aligned == \A r \in R : shown[r] = shown[0]
Window == End(shown) <= cnt /\ (shown[0][2] >= Win \/ shown[0][1] = 0) /\ shown[0][2] <= Win
Forward == [][End(shown') >= End(shown)]_vars
Newest == [][(Show /\ ~overlapped) => End(shown') = cnt]_vars
NoBlock == <>(cnt = fed /\ gpc = "idle")
=============================================================================
