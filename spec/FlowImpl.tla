------------------------------ MODULE FlowImpl ------------------------------
(* The design of the scheduler, statement by statement: lifecycle calls of the *)
(* user, tasks of both schedulers, the stop flag, micro-batching, adaptive     *)
(* sleep, statistics flushed or counted.  Every step that is visible from      *)
(* outside emits its event; the abstract specification Flow runs along and    *)
(* must allow it (bad stays FALSE).  Bug selects a broken design that must be *)
(* refuted.                                                                    *)
EXTENDS Flow
CONSTANTS N, W, MC, K, Ops, Codes, Asl, Bug
VARIABLES s, bad, m, stop, ts, pub, sl
ivars == <<s, bad, m, stop, ts, pub, sl>>
B == 1..N
Cfg(sched, cb) == [e |-> "runcall", sched |-> sched, w |-> W, mc |-> MC, asl |-> Asl, mult |-> 150, max |-> 1400, thr |-> 1, st |-> TRUE, cb |-> cb, dur |-> -1, at |-> 0]
Emit(e) == bad' = (bad \/ ~Ok(s, e)) /\ s' = Step(s, e)
Silent == UNCHANGED <<s, bad>>
Per == (N + W - 1) \div W
PoolBlocks(w) == {b \in B : (b - 1) \div Per = w - 1}
SeqOf(S) == [i \in 1..Cardinality(S) |-> CHOOSE b \in S : Cardinality({x \in S : x < b}) = i - 1]
Task0(bs, solo, run) == [pc |-> "new", bs |-> bs, solo |-> solo, pos |-> 1, c |-> 0, did |-> FALSE, err |-> "", ok |-> 0, er |-> 0, run |-> run]
IInit == s = New(N) /\ bad = FALSE /\ \E cb \in BOOLEAN : m = [pc |-> "idle", ops |-> 0, next |-> "", sched |-> "tpb", cb |-> cb, i |-> 0, from |-> 1, runs |-> 0] /\ stop = FALSE
         /\ ts = <<>> /\ pub = [b \in B |-> <<0, 0>>] /\ sl = [b \in B |-> [f |-> 0, cur |-> 0]]
--------------------------------------------------------------------------------
\* the user
Go(p) == m' = [m EXCEPT !.pc = p]
CallRun == m.pc = "idle" /\ m.ops < Ops /\ \E sched \in {"tpb", "pool"} :
   Emit(Cfg(sched, m.cb)) /\ m' = [m EXCEPT !.pc = IF Bug = "rerun" THEN "reset" ELSE "flag", !.next = "reset", !.sched = sched, !.ops = @ + 1] /\ UNCHANGED <<stop, ts, pub, sl>>
CallStop == m.pc = "idle" /\ m.ops < Ops /\ Emit([e |-> "stopcall"]) /\ m' = [m EXCEPT !.pc = "flag", !.next = "stopret", !.ops = @ + 1] /\ UNCHANGED <<stop, ts, pub, sl>>
CallDel == m.pc = "idle" /\ Emit([e |-> "delcall"]) /\ m' = [m EXCEPT !.pc = "flag", !.next = "delret"] /\ UNCHANGED <<stop, ts, pub, sl>>
Ask == m.pc = "idle" /\ Emit([e |-> "isst", r |-> stop, at |-> 0]) /\ UNCHANGED <<m, stop, ts, pub, sl>>
SetFlag == m.pc = "flag" /\ stop' = TRUE /\ m' = [m EXCEPT !.pc = "join", !.i = m.from] /\ Silent /\ UNCHANGED <<ts, pub, sl>>
JoinOne == m.pc = "join" /\ m.i <= Len(ts) /\ ts[m.i].pc = "end" /\ Emit([e |-> "join", t |-> m.i]) /\ ts' = [ts EXCEPT ![m.i].pc = "joined"]
           /\ m' = [m EXCEPT !.i = @ + 1] /\ UNCHANGED <<stop, pub, sl>>
JoinSkip == m.pc = "join" /\ m.i <= Len(ts) /\ (ts[m.i].pc = "joined" \/ (Bug = "nojoin" /\ m.i = Len(ts) /\ ts[m.i].pc \notin {"end", "joined"})) /\ m' = [m EXCEPT !.i = @ + 1] /\ Silent /\ UNCHANGED <<stop, ts, pub, sl>>
JoinDone == m.pc = "join" /\ m.i > Len(ts) /\ Go(m.next) /\ Silent /\ UNCHANGED <<stop, ts, pub, sl>>
StopRet == m.pc = "stopret" /\ Emit([e |-> "stopret", at |-> 0]) /\ m' = [m EXCEPT !.pc = IF m.runs > 0 THEN "stats" ELSE "idle", !.i = 1] /\ UNCHANGED <<stop, ts, pub, sl>>
ReadStats == m.pc = "stats" /\ Emit([e |-> "stats", b |-> m.i, ok |-> pub[m.i][1], er |-> pub[m.i][2], name |-> TRUE, dead |-> 0, rt |-> 0])
             /\ m' = [m EXCEPT !.pc = IF m.i = N THEN "idle" ELSE "stats", !.i = @ + 1] /\ UNCHANGED <<stop, ts, pub, sl>>
DelRet == m.pc = "delret" /\ Emit([e |-> "delret"]) /\ Go("done") /\ UNCHANGED <<stop, ts, pub, sl>>
Reset == m.pc = "reset" /\ stop' = FALSE /\ pub' = [b \in B |-> <<0, 0>>] /\ sl' = (IF Bug = "stale" THEN sl ELSE [b \in B |-> [f |-> 0, cur |-> 0]])
         /\ m' = [m EXCEPT !.pc = "launch", !.i = 1, !.runs = @ + 1] /\ Silent /\ UNCHANGED ts
Pooled == m.sched = "pool" /\ W < N
Launch == m.pc = "launch" /\ m.i <= (IF Pooled THEN W ELSE N) /\ Emit([e |-> "create", t |-> Len(ts) + 1])
          /\ ts' = Append(ts, IF Pooled THEN Task0(SeqOf(PoolBlocks(m.i) \cup (IF Bug = "overlap" /\ m.i = 2 THEN {1} ELSE {})), FALSE, m.runs) ELSE Task0(<<m.i>>, TRUE, m.runs))
          /\ m' = [m EXCEPT !.i = @ + 1, !.from = IF m.i = 1 THEN Len(ts) + 1 ELSE @] /\ UNCHANGED <<stop, pub, sl>>
RunRet == m.pc = "launch" /\ m.i > (IF Pooled THEN W ELSE N) /\ Emit([e |-> "runret"]) /\ Go("idle") /\ UNCHANGED <<stop, ts, pub, sl>>
User == CallRun \/ CallStop \/ CallDel \/ SetFlag \/ JoinOne \/ JoinSkip \/ JoinDone \/ StopRet \/ ReadStats \/ DelRet \/ Reset \/ Launch \/ RunRet
--------------------------------------------------------------------------------
\* task t.  pc: new, top (loop head), tick (burst loop), call, proc, verdict, fin, end
Set(t, f) == ts' = [ts EXCEPT ![t] = f]
Blk(t) == ts[t].bs[ts[t].pos]
Calls(b) == s.bl[b].ok + s.bl[b].er
Start(t) == ts[t].pc = "new" /\ Emit([e |-> "tstart", t |-> t]) /\ Set(t, [ts[t] EXCEPT !.pc = "top"]) /\ UNCHANGED <<m, stop, pub, sl>>
\* loop head; a worker without blocks only relaxes
Top(t) == ts[t].pc = "top" /\ Silent /\ UNCHANGED <<m, stop, pub, sl>>
          /\ IF stop THEN Set(t, [ts[t] EXCEPT !.pc = "fin"])
             ELSE ts[t].bs # <<>> /\ Set(t, [ts[t] EXCEPT !.pc = "tick", !.c = 0, !.did = FALSE])
Leave(k) == [k EXCEPT !.pc = IF Len(k.bs) > 0 THEN "top" ELSE "fin", !.pos = (@ % Len(k.bs)) + 1, !.err = ""]
Tick(t) == ts[t].pc = "tick" /\ Silent /\ UNCHANGED <<m, stop, pub, sl>>
           /\ IF ts[t].c < (IF Bug = "batch" THEN MC + 1 ELSE MC) /\ ~stop THEN Calls(Blk(t)) < K /\ Set(t, [ts[t] EXCEPT !.pc = "call"])
              ELSE Set(t, Leave(ts[t]))
Enter(t) == ts[t].pc = "call" /\ Emit([e |-> "enter", t |-> t, b |-> Blk(t), ch |-> TRUE, cur |-> sl[Blk(t)].cur, z |-> sl[Blk(t)].cur = 0, at |-> 0])
            /\ Set(t, [ts[t] EXCEPT !.pc = "proc"]) /\ UNCHANGED <<m, stop, pub, sl>>
Count(t, ok) == IF ts[t].solo THEN UNCHANGED pub ELSE pub' = [pub EXCEPT ![Blk(t)] = IF ok THEN <<@[1] + 1, @[2]>> ELSE <<@[1], @[2] + 1>>]
Exit(t) == ts[t].pc = "proc" /\ \E r \in Codes :
   /\ Emit([e |-> "exit", t |-> t, b |-> Blk(t), res |-> r, at |-> 0])
   /\ Count(t, r = "OK") /\ UNCHANGED <<m, stop>>
   /\ LET b == Blk(t) IN
      IF r = "OK" THEN /\ sl' = IF Asl /\ ~ts[t].did THEN [sl EXCEPT ![b] = [f |-> 0, cur |-> IF Bug = "nohalf" THEN @.cur ELSE @.cur \div 2]] ELSE sl
                       /\ Set(t, [ts[t] EXCEPT !.pc = "tick", !.c = @ + 1, !.did = TRUE, !.ok = @ + 1])
      ELSE Set(t, [ts[t] EXCEPT !.pc = "verdict", !.err = r, !.er = @ + 1]) /\ UNCHANGED sl
Kind(t) == IF ts[t].err \in Fatal THEN "fatal" ELSE IF ts[t].err \in Starved /\ Asl THEN "starved" ELSE IF ts[t].err \in Starved THEN "spin" ELSE "soft"
FatalFlag(t) == ts[t].pc = "verdict" /\ Kind(t) = "fatal" /\ Silent /\ UNCHANGED <<m, pub, sl>>
   /\ stop' = (Bug # "cbfirst") /\ Set(t, [ts[t] EXCEPT !.pc = IF m.cb /\ Bug # "nocb" THEN "cb" ELSE IF Bug = "early" /\ ts[t].solo THEN "quit" ELSE "top"])
CallBack(t) == ts[t].pc = "cb" /\ Emit([e |-> "cb", t |-> t, ctx |-> TRUE, isst |-> stop]) /\ stop' = TRUE
   /\ Set(t, [ts[t] EXCEPT !.pc = IF Bug = "early" /\ ts[t].solo THEN "quit" ELSE "top"]) /\ UNCHANGED <<m, pub, sl>>
Spin(t) == ts[t].pc = "verdict" /\ Kind(t) = "spin" /\ Silent /\ Set(t, Leave(ts[t])) /\ UNCHANGED <<m, stop, pub, sl>>
SoftBack(t) == ts[t].pc = "verdict" /\ Kind(t) = "soft" /\ Emit([e |-> "relax", t |-> t]) /\ Set(t, Leave(ts[t])) /\ UNCHANGED <<m, stop, pub, sl>>
StarvedBack(t) == ts[t].pc = "verdict" /\ Kind(t) = "starved" /\ LET b == Blk(t)  x == sl[b]  f == x.f + 1 IN
   /\ IF f > 1 THEN LET cur == IF x.cur = 0 THEN 1000 ELSE IF Bug = "nomax" THEN (x.cur * 3) \div 2 ELSE MinI((x.cur * 3) \div 2, 1400) IN
                      sl' = [sl EXCEPT ![b] = [f |-> f, cur |-> cur]] /\ Emit([e |-> "sleep", t |-> t, us |-> cur \div 1000, cur |-> cur])
      ELSE sl' = [sl EXCEPT ![b].f = f] /\ Emit([e |-> "relax", t |-> t])
   /\ Set(t, Leave(ts[t])) /\ UNCHANGED <<m, stop, pub>>
Fin(t) == ts[t].pc = "fin" /\ Silent /\ Set(t, [ts[t] EXCEPT !.pc = "quit"]) /\ UNCHANGED <<m, stop, sl>>
          /\ IF ts[t].solo THEN pub' = [pub EXCEPT ![ts[t].bs[1]] = <<ts[t].ok, ts[t].er>>] ELSE UNCHANGED pub
Quit(t) == ts[t].pc = "quit" /\ Emit([e |-> "tend", t |-> t, at |-> 0]) /\ Set(t, [ts[t] EXCEPT !.pc = "end"]) /\ UNCHANGED <<m, stop, pub, sl>>
TaskStep(t) == Start(t) \/ Top(t) \/ Tick(t) \/ Enter(t) \/ Exit(t) \/ FatalFlag(t) \/ CallBack(t) \/ Spin(t) \/ SoftBack(t) \/ StarvedBack(t) \/ Fin(t) \/ Quit(t)
Done == m.pc = "done" /\ UNCHANGED ivars
INext == User \/ Ask \/ (\E t \in DOMAIN ts : TaskStep(t)) \/ Done
MaxT == 2 * N * Ops
ISpec == IInit /\ [][INext]_ivars /\ WF_ivars(User) /\ \A t \in 1..MaxT : WF_ivars(t \in DOMAIN ts /\ TaskStep(t))
NeverBad == ~bad
Ends == <>(m.pc = "done")
=============================================================================
