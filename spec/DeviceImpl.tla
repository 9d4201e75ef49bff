----------------------------- MODULE DeviceImpl -----------------------------
(* A device block as its constructor, destructor and procedure are written,   *)
(* with a transfer thread where the device calls back. Every step says what   *)
(* the device library would see of it; the invariant is that Device allows    *)
(* each of those events. Steps of setup may fail (Err) at any point.          *)
(* Leak: a failed constructor keeps what it acquired. Late: the destructor    *)
(* closes the device before stopping it. Chan0: only the first of the         *)
(* channels is consumed. Spin: a write that takes nothing is repeated.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Dir, NCh, MaxSamples, MaxCalls, Leak, Late, Chan0, Spin
VARIABLES s, pc, k, q, have, pt, pn, sent, left, ok, calls, it, acct
vars == <<s, pc, k, q, have, pt, pn, sent, left, ok, calls, it, acct>>
D == INSTANCE Device
Want == <<<<"freq", 7>>, <<"gain", 3>>>>
Setup == <<"lib", "dev", "freq", "gain", "run">>
Cap == 2
Header == [e |-> "reset", blk |-> "impl", dir |-> Dir, nch |-> NCh, want |-> Want, valid |-> TRUE, thr |-> 1, cap |-> Cap, uselib |-> TRUE, conc |-> FALSE]
Emit(e) == ok' = (ok /\ D!Ok(s, e)) /\ s' = D!Step(s, e)
Init == /\ s = D!Step(D!New(Header), [e |-> "ctor"]) /\ pc = "setup" /\ k = 1 /\ q = <<>> /\ have = {} /\ pt = "idle" /\ pn = 0
        /\ sent = 0 /\ left = [i \in 1..NCh |-> 0] /\ ok = TRUE /\ calls = 0 /\ it = 0 /\ acct = 0
(* ---- construction *)
Acquire == /\ pc = "setup" /\ k <= Len(Setup)
           /\ LET r == Setup[k] IN IF r \in {"freq", "gain"} THEN Emit([e |-> "cfg", k |-> r, v |-> IF r = "freq" THEN 7 ELSE 3]) /\ have' = have
                                   ELSE Emit([e |-> "acq", r |-> r]) /\ have' = have \cup {r}
           /\ k' = k + 1 /\ UNCHANGED <<pc, q, pt, pn, sent, left, calls, it, acct>>
Up == /\ pc = "setup" /\ k > Len(Setup) /\ Emit([e |-> "up", ok |-> TRUE]) /\ pc' = "idle" /\ UNCHANGED <<k, q, have, pt, pn, sent, left, calls, it, acct>>
Err == /\ pc = "setup" /\ k <= Len(Setup) /\ Emit([e |-> "fail"]) /\ pc' = "unwind" /\ UNCHANGED <<k, q, have, pt, pn, sent, left, calls, it, acct>>
Next1(h) == IF "run" \in h /\ ~Late THEN "run" ELSE IF "dev" \in h THEN "dev" ELSE IF "run" \in h THEN "run" ELSE "lib"
Unwind == /\ pc = "unwind" /\ have # {} /\ ~Leak /\ LET r == Next1(have) IN Emit([e |-> "rel", r |-> r]) /\ have' = have \ {r}
          /\ UNCHANGED <<pc, k, q, pt, pn, sent, left, calls, it, acct>>
Failed == /\ pc = "unwind" /\ (have = {} \/ Leak) /\ Emit([e |-> "up", ok |-> FALSE]) /\ pc' = "ended" /\ UNCHANGED <<k, q, have, pt, pn, sent, left, calls, it, acct>>
(* ---- destruction: the transfer thread is joined by stopping the stream *)
Destroy == /\ pc = "idle" /\ Emit([e |-> "down"]) /\ pc' = "dtor" /\ UNCHANGED <<k, q, have, pt, pn, sent, left, calls, it, acct>>
Release == /\ pc = "dtor" /\ have # {} /\ LET r == Next1(have) IN (r = "run" => pt = "idle") /\ Emit([e |-> "rel", r |-> r]) /\ have' = have \ {r}
           /\ UNCHANGED <<pc, k, q, pt, pn, sent, left, calls, it, acct>>
Gone == /\ pc = "dtor" /\ have = {} /\ Emit([e |-> "gone"]) /\ pc' = "ended" /\ UNCHANGED <<k, q, have, pt, pn, sent, left, calls, it, acct>>
(* ---- the device pushes (transfer thread), the block moves its queue to the output *)
PushBegin == /\ Dir = "push" /\ "run" \in have /\ pc # "setup" /\ pt = "idle" /\ sent < MaxSamples
             /\ \E n \in 1..2 : pn' = n /\ Emit([e |-> "push", n |-> n])
             /\ pt' = "item" /\ it' = 0 /\ UNCHANGED <<pc, k, q, have, sent, left, calls, acct>>
PushItem == /\ pt = "item" /\ it < pn /\ it' = it + 1 /\ sent' = sent + 1
            /\ IF Len(q) < Cap THEN q' = Append(q, sent) /\ acct' = acct ELSE q' = q /\ acct' = acct + 1
            /\ UNCHANGED <<s, pc, k, have, pt, pn, left, ok, calls>>
PushEnd == /\ pt = "item" /\ it = pn /\ Emit([e |-> "pushed", ovf |-> acct]) /\ pt' = "idle" /\ UNCHANGED <<pc, k, q, have, pn, sent, left, calls, it, acct>>
RECURSIVE Runs(_)
Runs(x) == IF x = <<>> THEN <<>> ELSE LET r == Runs(SubSeq(x, 1, Len(x) - 1)) l == x[Len(x)] IN
   IF r # <<>> /\ r[Len(r)][1] + r[Len(r)][2] = l THEN [r EXCEPT ![Len(r)] = <<@[1], @[2] + 1>>] ELSE Append(r, <<l, 1>>)
Call == /\ pc = "idle" /\ calls < MaxCalls /\ calls' = calls + 1 /\ \E sp \in 0..2 : Emit([e |-> "cb", sp |-> [i \in 1..NCh |-> sp]])
        /\ pc' = "call" /\ UNCHANGED <<k, q, have, pt, pn, sent, left, it, acct>>
Min(a, b) == IF a < b THEN a ELSE b
PushCall == /\ pc = "call" /\ Dir = "push"
            /\ \E seen \in {Len(q)} : LET n == Min(seen, s.sp[1]) IN
                 /\ Emit([e |-> "ce", res |-> IF seen = 0 THEN "NES" ELSE IF s.sp[1] = 0 THEN "NESP" ELSE "OK", out |-> <<Runs(SubSeq(q, 1, n))>>, ovf |-> -1])
                 /\ q' = SubSeq(q, n + 1, Len(q))
            /\ pc' = "idle" /\ UNCHANGED <<k, have, pt, pn, sent, left, calls, it, acct>>
(* ---- the block asks (one read per call) *)
SrcRead == /\ pc = "call" /\ Dir = "src" /\ s.sp[1] > 0 /\ sent < MaxSamples /\ s.rd = <<>>
           /\ \E got \in 0..s.sp[1], st \in {"ok", "timeout", "zero", "overflow", "error"} :
                /\ (got > 0) = (st = "ok") /\ sent + got <= MaxSamples
                /\ Emit([e |-> "rd", max |-> s.sp[1], got |-> got, st |-> st]) /\ pn' = got /\ sent' = sent + got
                /\ acct' = IF st = "overflow" THEN acct + 1 ELSE acct
                /\ pc' = (IF st = "error" THEN "fatal" ELSE IF st \in {"timeout", "zero"} THEN "nes" ELSE "ok")
           /\ UNCHANGED <<k, q, have, pt, left, calls, it>>
SrcEnd == /\ Dir = "src" /\ (pc \in {"fatal", "nes", "ok"} \/ (pc = "call" /\ s.sp[1] = 0))
          /\ Emit([e |-> "ce", res |-> CASE pc = "fatal" -> "TERM" [] pc = "nes" -> "NES" [] pc = "ok" -> "OK" [] OTHER -> "NESP",
                   out |-> [i \in 1..NCh |-> IF pc = "ok" /\ pn > 0 THEN <<<<sent - pn, pn>>>> ELSE <<>>], ovf |-> acct])
          /\ pc' = (IF pc = "fatal" THEN "over" ELSE "idle") /\ UNCHANGED <<k, q, have, pt, pn, sent, left, calls, it, acct>>
(* ---- the block writes: one send for all channels, what the shortest has *)
Feed == /\ Dir = "snk" /\ pc \notin {"setup", "unwind", "dtor", "ended"}
        /\ \E i \in 1..NCh : s.fed[i] < MaxSamples /\ left' = [left EXCEPT ![i] = @ + 1] /\ Emit([e |-> "feed", i |-> i, k |-> 1])
        /\ pc = "idle" /\ UNCHANGED <<pc, k, q, have, pt, pn, sent, calls, it, acct>>
Shortest == CHOOSE m \in {left[i] : i \in 1..NCh} : \A i \in 1..NCh : m <= left[i]
Write == /\ pc = "call" /\ Dir = "snk" /\ Shortest > 0
         /\ \E ret \in 0..Shortest : LET st == IF ret < Shortest THEN "timeout" ELSE "ok" IN
              /\ Emit([e |-> "wr", n |-> Shortest, ret |-> ret, st |-> st, got |-> [i \in 1..NCh |-> <<<<sent, Shortest>>>>]])
              /\ sent' = sent + ret /\ left' = [i \in 1..NCh |-> IF i = 1 \/ ~Chan0 THEN left[i] - ret ELSE left[i]]
              /\ pc' = (IF Spin /\ ret = 0 THEN "call" ELSE "ok")
         /\ UNCHANGED <<k, q, have, pt, pn, calls, it, acct>>
SnkEnd == /\ Dir = "snk" /\ (pc = "ok" \/ (pc = "call" /\ Shortest = 0))
          /\ Emit([e |-> "ce", res |-> IF pc = "ok" THEN "OK" ELSE "NES", left |-> left, und |-> -1])
          /\ pc' = "idle" /\ UNCHANGED <<k, q, have, pt, pn, sent, left, calls, it, acct>>
Over == /\ pc = "over" /\ Emit([e |-> "down"]) /\ pc' = "dtor" /\ UNCHANGED <<k, q, have, pt, pn, sent, left, calls, it, acct>>
Next == Acquire \/ Up \/ Err \/ Unwind \/ Failed \/ Destroy \/ Release \/ Gone \/ PushBegin \/ PushItem \/ PushEnd \/ Call \/ PushCall \/ SrcRead \/ SrcEnd \/ Feed \/ Write \/ SnkEnd \/ Over
Spec == Init /\ [][Next]_vars
Allowed == ok
NothingHeld == pc = "ended" => have = {}
=============================================================================
