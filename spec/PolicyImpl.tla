----------------------------- MODULE PolicyImpl -----------------------------
(* The create/join algorithm of the RTOS policies, step by step, with the     *)
(* handle copied from where it was made to where it is kept.                  *)
(* ByValue: the semaphore lives inside the handle (else in a heap block).     *)
(* JoinThread: the joiner waits for the thread itself, not only for its       *)
(* completion signal, before it frees the stack.                              *)
(* Kill: the joiner terminates the thread (the kernel never runs it again).   *)
EXTENDS Integers
CONSTANTS ByValue, JoinThread, Kill
VARIABLES pc, tpc, cnt, made, dead, stack, data, ran, bad
vars == <<pc, tpc, cnt, made, dead, stack, data, ran, bad>>
\* pc: creator/joiner; tpc: the thread; cnt: signals given at address a; made: address of the semaphore
\* dead: addresses whose storage is gone; addresses: 1 = the first handle, 2 = its copy, 3 = the heap block
Init == pc = "new" /\ tpc = "none" /\ cnt = [a \in 1..3 |-> 0] /\ made = 0 /\ dead = {} /\ stack = "no" /\ data = "no" /\ ran = 0 /\ bad = FALSE
Sem == IF ByValue THEN 1 ELSE 3
Mine == IF ByValue THEN 2 ELSE 3      \* where the joiner looks for it
Create == pc = "new" /\ pc' = "made" /\ made' = Sem /\ stack' = "yes" /\ data' = "yes" /\ tpc' = "run" /\ UNCHANGED <<cnt, dead, ran, bad>>
Copy == pc = "made" /\ pc' = "kept" /\ dead' = dead \cup {1} /\ UNCHANGED <<tpc, cnt, made, stack, data, ran, bad>>
Fn == tpc = "run" /\ tpc' = "signal" /\ ran' = ran + 1 /\ bad' = (bad \/ data # "yes" \/ stack # "yes") /\ UNCHANGED <<pc, cnt, made, dead, stack, data>>
Signal == tpc = "signal" /\ tpc' = "leave" /\ cnt' = [cnt EXCEPT ![made] = @ + 1] /\ bad' = (bad \/ made \in dead \/ data # "yes") /\ UNCHANGED <<pc, made, dead, stack, data, ran>>
Leave == tpc = "leave" /\ tpc' = "over" /\ bad' = (bad \/ stack # "yes") /\ UNCHANGED <<pc, cnt, made, dead, stack, data, ran>>
Get == pc = "kept" /\ cnt[Mine] > 0 /\ pc' = "got" /\ cnt' = [cnt EXCEPT ![Mine] = @ - 1] /\ bad' = (bad \/ Mine # made) /\ UNCHANGED <<tpc, made, dead, stack, data, ran>>
End == pc = "got" /\ (~JoinThread \/ tpc = "over") /\ pc' = "ended" /\ tpc' = (IF Kill THEN "over" ELSE tpc) /\ UNCHANGED <<cnt, made, dead, stack, data, ran, bad>>
Free == pc = "ended" /\ pc' = "joined" /\ stack' = "no" /\ data' = "no" /\ dead' = dead \cup {2, 3} /\ UNCHANGED <<tpc, cnt, made, ran, bad>>
Next == Create \/ Copy \/ Fn \/ Signal \/ Leave \/ Get \/ End \/ Free
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Safe == ~bad
Once == ran <= 1
Joined == pc = "joined" => ran = 1 /\ tpc # "run"
Returns == <>(pc = "joined")
=============================================================================
