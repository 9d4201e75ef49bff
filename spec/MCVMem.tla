------------------------------- MODULE MCVMem -------------------------------
(* The design of the buffer set-up and its error paths, step by step, with   *)
(* every step allowed to fail: whatever fails, an object that does not end   *)
(* up double mapped holds nothing.  Leak = TRUE: the variant whose error     *)
(* path forgets the descriptor, which must be refuted.                       *)
EXTENDS VMem
CONSTANTS L, Objs, Leak, MaxFiles
VARIABLES pc, fdof, regof
mvars == <<fds, size, segs, own, files, pc, fdof, regof>>
MInit == VInit /\ pc = [o \in Objs |-> "none"] /\ fdof = [o \in Objs |-> 0] /\ regof = [o \in Objs |-> 0]
Fresh(S) == CHOOSE x \in 1..20 : x \notin S /\ \A y \in 1..20 : y < x => y \in S
To(o, p) == pc' = [pc EXCEPT ![o] = p]
Begin(o) == pc[o] = "none" /\ files < MaxFiles /\ To(o, "open") /\ UNCHANGED <<fds, size, segs, own, files, fdof, regof>>
DoOpen(o) == pc[o] = "open" /\ LET fd == Fresh(DOMAIN fds) IN Open(fd) /\ fdof' = [fdof EXCEPT ![o] = fd] /\ To(o, "trunc") /\ UNCHANGED regof
DoTrunc(o) == pc[o] = "trunc" /\ Truncate(fdof[o], L) /\ To(o, "reserve") /\ UNCHANGED <<fdof, regof>>
DoReserve(o) == pc[o] = "reserve" /\ LET r == Fresh({s.r : s \in segs}) IN Reserve(r, 2 * L) /\ regof' = [regof EXCEPT ![o] = r] /\ To(o, "map1") /\ UNCHANGED fdof
DoMap1(o) == pc[o] = "map1" /\ MapFixed(regof[o], 0, L, fdof[o], 0) /\ To(o, "map2") /\ UNCHANGED <<fdof, regof>>
DoMap2(o) == pc[o] = "map2" /\ MapFixed(regof[o], L, L, fdof[o], 0) /\ To(o, "ok") /\ UNCHANGED <<fdof, regof>>
\* a step fails: undo what was done
FailFirst(o) == pc[o] = "open" /\ To(o, "bad") /\ UNCHANGED <<fds, size, segs, own, files, fdof, regof>>
FailLater(o) == pc[o] \in {"trunc", "reserve", "map1", "map2"} /\ To(o, IF pc[o] \in {"map1", "map2"} THEN "undo" ELSE IF Leak /\ pc[o] = "reserve" THEN "bad" ELSE "shut")
                /\ UNCHANGED <<fds, size, segs, own, files, fdof, regof>>
Undo(o) == pc[o] = "undo" /\ Unmap(regof[o], 0, 2 * L) /\ To(o, "shut") /\ UNCHANGED <<fdof, regof>>
Shut(o) == pc[o] = "shut" /\ Close(fdof[o]) /\ To(o, "bad") /\ UNCHANGED <<fdof, regof>>
\* construction returns
Publish(o) == /\ pc[o] \in {"ok", "bad"} /\ own' = Put(own, o, IF pc[o] = "ok" THEN regof[o] ELSE 0)
              /\ To(o, IF pc[o] = "ok" THEN "live" ELSE "plain") /\ UNCHANGED <<fds, size, segs, files, fdof, regof>>
Destroy1(o) == pc[o] = "live" /\ Unmap(regof[o], 0, 2 * L) /\ To(o, "d2") /\ own' = own /\ UNCHANGED <<fdof, regof>>
Destroy2(o) == pc[o] = "d2" /\ Close(fdof[o]) /\ To(o, "dead") /\ UNCHANGED <<fdof, regof>>
Destroy3(o) == pc[o] \in {"dead", "plain"} /\ own' = Drop(own, o) /\ To(o, "none") /\ UNCHANGED <<fds, size, segs, files, fdof, regof>>
MNext == \E o \in Objs : Begin(o) \/ DoOpen(o) \/ DoTrunc(o) \/ DoReserve(o) \/ DoMap1(o) \/ DoMap2(o) \/ FailFirst(o) \/ FailLater(o)
                         \/ Undo(o) \/ Shut(o) \/ Publish(o) \/ Destroy1(o) \/ Destroy2(o) \/ Destroy3(o)
MSpec == MInit /\ [][MNext]_mvars
Quiet == \A o \in Objs : pc[o] \in {"none", "live", "plain"}
\* between calls nothing is held beyond what live double-mapped objects need
NoLeak == Quiet => Tight(own)
Mapped == \A o \in Objs : pc[o] = "live" => DoubleMap(regof[o], L)
=============================================================================
