------------------------------ MODULE TraceVMem ------------------------------
(* Recorded system calls, object lifetimes and channel calls of the real     *)
(* buffer code under injected faults: VMem and SpscFifo side by side.        *)
EXTENDS VMem, SpscFifo, TraceBase
VARIABLES vm
tvars == <<fds, size, segs, own, files, cap, wr, rd, win, pend, vm, l>>
keepf == UNCHANGED <<cap, wr, rd, win, pend, vm>>
keepv == UNCHANGED vvars
TInit == VInit /\ FInit(1) /\ vm = 1 /\ l = 1
TReset == IsEvent("reset") /\ fds' = Empty /\ size' = Empty /\ segs' = {} /\ own' = Empty /\ files' = 0 /\ keepf
TSys == /\ IsEvent("sys") /\ keepf
        /\ CASE Ev.ok = 0 -> Fault
             [] Ev.c = "open" -> Open(Ev.fd)
             [] Ev.c = "close" -> Close(Ev.fd)
             [] Ev.c = "trunc" -> Truncate(Ev.fd, Ev.n)
             [] Ev.c = "reserve" -> Reserve(Ev.r, Ev.n)
             [] Ev.c = "map" -> MapFixed(Ev.r, Ev.off, Ev.n, Ev.fd, Ev.fo)
             [] Ev.c = "unmap" -> Unmap(Ev.r, Ev.off, Ev.n)
             [] Ev.c = "unlink" -> Fault
             [] OTHER -> FALSE
\* a channel was constructed for req elements: its ring must fill the mapping exactly
TMade == /\ IsEvent("made") /\ Made(Ev.id, Ev.r, Ev.pages)
         /\ (Ev.r # 0) = Ev.dm
         /\ (Ev.dm => Ev.rem = 0 /\ Ev.second)
         /\ Ev.init                            \* every slot holds a constructed element
         /\ Ev.cap >= Ev.req
         /\ cap' = Ev.cap /\ wr' = 0 /\ rd' = 0 /\ win' = [s \in Sides |-> 0] /\ pend' = [s \in Sides |-> Idle] /\ vm' = Ev.vm
TGone == IsEvent("gone") /\ Gone(Ev.id) /\ keepf
TOp == IsEvent("op") /\ Atomic(Ev.s, Ev.op, Ev.n, Ev.k, Ev.v, vm) /\ UNCHANGED vm /\ keepv
\* element lifetimes in balance, and the process really holds just these descriptors and no named segment
TLife == /\ IsEvent("life") /\ keepv /\ keepf /\ Ev.bad = 0 /\ (Ev.objs = 0 => Ev.live = 0)
         /\ Ev.fds = Cardinality(DOMAIN fds) /\ Ev.shm = 0
\* a channel built by one of two concurrent constructors
TCMade == IsEvent("cmade") /\ Ev.cap >= Ev.req /\ keepv
          /\ cap' = Ev.cap /\ wr' = 0 /\ rd' = 0 /\ win' = [s \in Sides |-> 0] /\ pend' = [s \in Sides |-> Idle] /\ vm' = Ev.vm
\* DoublyMappedAllocation used directly
TObj == /\ IsEvent("obj") /\ keepf
        /\ CASE Ev.c = "new" -> Made(Ev.id, 0, 0)
             [] Ev.c = "create" -> Remade(Ev.id, Ev.r, Ev.pages) /\ (Ev.res = (Ev.r # 0)) /\ (Ev.res => Ev.pages * 4096 >= Ev.want /\ Ev.second)
             [] Ev.c = "move" -> Moved(Ev.from, Ev.id) /\ Ev.r = own[Ev.from] /\ ~Ev.fromvalid
             [] Ev.c = "self" -> keepv /\ Ev.r = own[Ev.id]
             [] Ev.c = "del" -> Gone(Ev.id)
             [] OTHER -> FALSE
TNext == TReset \/ TSys \/ TMade \/ TGone \/ TOp \/ TLife \/ TObj \/ TCMade
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
