------------------------------ MODULE TraceBase ------------------------------
(* Shared by all trace specifications: reading the log, progress register.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
(* highest line reached, in register 1 (-workers 1) *)
Progress == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"REACHED", TLCGet(1) - 1, "OF", Len(Trace)>>) /\ TLCGet(1) - 1 = Len(Trace)
=============================================================================
