------------------------------ MODULE TraceFlow ------------------------------
(* Recorded runs of the real FlowGraph against Flow.                          *)
EXTENDS Flow, TraceBase
VARIABLE s
tvars == <<s, l>>
TInit == s = New(1) /\ l = 1
TReset == IsEvent("reset") /\ s' = New(Ev.n)
TStep == /\ l <= Len(Trace) /\ Ev.e # "reset" /\ l' = l + 1
         /\ Ok(s, Ev) = TRUE /\ s' = Step(s, Ev)
TNext == TReset \/ TStep
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
