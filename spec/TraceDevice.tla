---------------------------- MODULE TraceDevice ----------------------------
(* Recorded runs of the real device blocks against Device.            *)
EXTENDS Device, TLC, Json, IOUtils
VARIABLES s, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Progress == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"REACHED", TLCGet(1) - 1, "OF", Len(Trace)>>) /\ TLCGet(1) - 1 = Len(Trace)
TInit == s = 0 /\ l = 1
TReset == l <= Len(Trace) /\ Ev.e = "reset" /\ l' = l + 1 /\ s' = New(Ev)
TStep == l <= Len(Trace) /\ Ev.e # "reset" /\ l' = l + 1 /\ Ok(s, Ev) = TRUE /\ s' = Step(s, Ev)
TNext == TReset \/ TStep
TSpec == TInit /\ [][TNext]_<<s, l>>
=============================================================================
