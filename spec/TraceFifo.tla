------------------------------ MODULE TraceFifo ------------------------------
(* Is a recorded log of channel calls a behaviour of SpscFifo?               *)
EXTENDS SpscFifo, TraceBase
VARIABLES vm
tvars == <<cap, wr, rd, win, pend, vm, l>>
TInit == FInit(1) /\ vm = 1 /\ l = 1
TReset == /\ IsEvent("reset")
          /\ Ev.cap >= Ev.req                        \* constructed for req elements
          /\ (Ev.exact => Ev.cap = Ev.req)
          /\ cap' = Ev.cap /\ wr' = 0 /\ rd' = 0 /\ win' = [s \in Sides |-> 0]
          /\ pend' = [s \in Sides |-> Idle] /\ vm' = Ev.vm
TOp   == IsEvent("op")   /\ Atomic(Ev.s, Ev.op, Ev.n, Ev.k, Ev.v, vm) /\ UNCHANGED vm
TCall == IsEvent("call") /\ Call(Ev.s, Ev.op, Ev.n, Ev.k, Ev.v) /\ UNCHANGED vm
TRet  == IsEvent("ret")  /\ Ret(Ev.s) /\ UNCHANGED vm
TLin  == \E s \in Sides : Lin(s, vm) /\ UNCHANGED <<vm, l>>
TNext == TReset \/ TOp \/ TCall \/ TRet \/ TLin
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
