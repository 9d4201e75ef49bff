-------------------------------- MODULE Flow --------------------------------
(* A flowgraph as observed from outside: lifecycle calls of its user, tasks   *)
(* created and joined through the task policy, procedure calls of its blocks, *)
(* back-off, termination callback and published statistics.                   *)
(* Functional style: Ok(s, e) says whether event e may happen in state s,     *)
(* Step(s, e) is the state after it.  TraceFlow applies it to recorded        *)
(* events, FlowImpl to the events of the scheduler's design.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANT Rules   \* which families of rules are enforced
\* "excl" C06, "life" C07, "fatal" C08, "burst" C09, "sleep" C10, "stats" C11, "conf" C26
On(r) == r \in Rules
MinI(a, b) == IF a < b THEN a ELSE b
Starved == {"NotEnoughSamples", "NotEnoughSpace", "NotEnoughSpaceOrSamples"}
Soft    == {"Unknown", "ProcedureError", "BadData"}
Fatal   == {"TERMINATE_FLOWGRAPH", "TERM_InvalidChannelIndex", "TERM_ProcedureError", "TERM_IOError", "TERM_EOFReached"}
Results == {"OK"} \cup Starved \cup Soft \cup Fatal

NoCfg == [sched |-> "tpb", w |-> 4, mc |-> 4, asl |-> FALSE, mult |-> 150, max |-> 5000000, thr |-> 10, st |-> FALSE, pin |-> FALSE, cb |-> FALSE, at |-> 0]
NewTask == [st |-> "made", blk |-> 0, after |-> 0, failed |-> FALSE, pendcb |-> FALSE, owed |-> "none",
            ord |-> <<>>, lrn |-> TRUE, pos |-> 0, cnt |-> 0, must |-> FALSE, run |-> 0, pin |-> -1]
NewBlock == [in |-> 0, own |-> 0, ok |-> 0, er |-> 0, dead |-> FALSE, fails |-> 0, cur |-> 0, z |-> TRUE, okb |-> FALSE, ended |-> FALSE, frst |-> -1, last |-> -1]
New(n) == [n |-> n, g |-> "idle", stop |-> "no", c |-> NoCfg, nc |-> NoCfg, fresh |-> FALSE, ft |-> FALSE, rf |-> -1, at0 |-> 0, atend |-> 0, run |-> 0, made |-> 0,
           tk |-> <<>>, bl |-> [b \in 1..n |-> NewBlock], pub |-> [b \in 1..n |-> <<0, 0>>]]

Alive(s) == {t \in 1..Len(s.tk) : s.tk[t].st # "joined"}
Pool(s) == s.c.sched = "pool" /\ s.c.w < s.n
\* between run() being called and its first task the previous run is still being wound up
Between(s) == s.g = "inrun" /\ s.fresh
\* nobody has asked for a stop
NoStop(s, at) == ~Between(s) /\ s.stop = "no" /\ ~(s.rf >= 0 /\ at >= s.at0 + s.rf)
\* from here on every running task has been told to stop
Definite(s) == IF s.stop = "yes" THEN s ELSE [s EXCEPT !.stop = "yes", !.tk = [t \in DOMAIN @ |-> [@[t] EXCEPT !.after = 0]]]
Maybe(s) == IF s.stop = "no" THEN [s EXCEPT !.stop = "maybe"] ELSE s
Published(s) == [b \in 1..s.n |-> IF s.c.st /\ s.run > 0 THEN <<s.bl[b].ok, s.bl[b].er>> ELSE s.pub[b]]
--------------------------------------------------------------------------------
\* user calls
Field(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
SameCfg(a, b) == /\ a.sched = b.sched /\ a.w = b.w /\ a.mc = b.mc /\ a.asl = b.asl /\ a.mult = b.mult /\ a.max = b.max /\ a.thr = b.thr /\ a.st = b.st /\ a.pin = b.pin
OkRunCall(s, e) == s.g \in {"idle", "up"} /\ (On("conf") /\ Field(e, "def", FALSE) => SameCfg(e, NoCfg))      \* run() without a configuration
StRunCall(s, e) == [Maybe(s) EXCEPT !.g = "inrun", !.fresh = TRUE, !.rf = e.dur, !.at0 = e.at, !.made = 0,
                    !.nc = [sched |-> e.sched, w |-> e.w, mc |-> e.mc, asl |-> e.asl, mult |-> e.mult, max |-> e.max, thr |-> e.thr, st |-> e.st, pin |-> Field(e, "pin", FALSE), cb |-> e.cb]]
\* the run was launched: one task per block, or no more tasks than workers
OkRunRet(s, e) == /\ s.g = "inrun" /\ ~s.fresh
                  /\ On("excl") \/ On("conf") => IF Pool(s) THEN s.made >= 1 /\ s.made <= s.c.w ELSE s.made = s.n
StRunRet(s, e) == [s EXCEPT !.g = "up"]
OkStopCall(s, e) == s.g \in {"idle", "up"}
StStopCall(s, e) == [Maybe(s) EXCEPT !.g = "instop"]
Quiet(s) == Alive(s) = {} /\ \A b \in 1..s.n : s.bl[b].in = 0
OkStopRet(s, e) == s.g = "instop" /\ (On("life") => Quiet(s))
StStopRet(s, e) == [Definite(s) EXCEPT !.g = "idle", !.atend = e.at]
\* run_for: as run and stop, and at least the requested time in between
OkRunForRet(s, e) == s.g = "inrun" /\ ~s.fresh /\ s.rf >= 0 /\ (On("life") => Quiet(s) /\ e.at >= s.at0 + s.rf)
StRunForRet(s, e) == [Definite(s) EXCEPT !.g = "idle", !.atend = e.at, !.rf = -1]
OkDelRet(s, e) == s.g = "instop" /\ (On("life") => Quiet(s))
StDelRet(s, e) == [s EXCEPT !.g = "gone"]
\* exact while nothing that changes it is in progress
OkIsStopped(s, e) == On("life") => (NoStop(s, e.at) => ~e.r) /\ (~Between(s) /\ s.stop = "yes" => e.r)
StIsStopped(s, e) == IF ~Between(s) /\ e.r THEN Definite(s) ELSE s
--------------------------------------------------------------------------------
\* task policy
OkCreate(s, e) == e.t = Len(s.tk) + 1 /\ s.g = "inrun" /\ (On("life") => (s.fresh => Alive(s) = {}))
StCreate(s, e) ==
  LET base == IF s.fresh THEN [s EXCEPT !.fresh = FALSE, !.ft = FALSE, !.stop = "no", !.run = @ + 1, !.c = s.nc,
                                        !.bl = [b \in 1..s.n |-> NewBlock], !.pub = Published(s)] ELSE s
  IN [base EXCEPT !.tk = Append(@, [NewTask EXCEPT !.run = base.run]), !.made = @ + 1]
OkStart(s, e) == e.t \in 1..Len(s.tk) /\ s.tk[e.t].st = "made"
StStart(s, e) == [s EXCEPT !.tk[e.t].st = "run"]
\* a task finishes only after a stop was requested
OkTend(s, e) == LET k == s.tk[e.t] IN
  /\ k.st = "run" /\ k.blk = 0
  /\ On("fatal") => ~k.pendcb
  /\ On("fatal") \/ On("excl") => ~NoStop(s, e.at)
StTend(s, e) == LET s1 == [s EXCEPT !.tk[e.t].st = "end"] IN IF s.tk[e.t].failed /\ ~Between(s) THEN Definite(s1) ELSE s1
OkJoin(s, e) == s.tk[e.t].st = "end"
StJoin(s, e) == LET s1 == [s EXCEPT !.tk[e.t].st = "joined"] IN IF ~Between(s) THEN Definite(s1) ELSE s1
--------------------------------------------------------------------------------
\* procedure calls.  Which burst does this call belong to?
Same(k, c, b) == k.pos > 0 /\ k.ord[k.pos] = b /\ ~k.must
NewB(k, b) ==      \* position of the next burst if b is served next, 0 if it must not be
  IF k.lrn THEN (IF \A i \in DOMAIN k.ord : k.ord[i] # b THEN Len(k.ord) + 1 ELSE IF k.ord[1] = b THEN 1 ELSE 0)
  ELSE LET nx == (k.pos % Len(k.ord)) + 1 IN IF k.ord[nx] = b THEN nx ELSE 0
Near(a, b, d) == a - b <= d /\ b - a <= d
\* blocks are spread evenly over the workers (at most 8 of them); without a pool each task serves one block
Workers(s) == MinI(s.c.w, 8)
Share(s) == IF Pool(s) THEN (s.n + Workers(s) - 1) \div Workers(s) ELSE 1
OkPin(s, e) == LET k == s.tk[e.t] IN
  /\ k.st = "run" /\ k.blk = 0
  /\ On("conf") => /\ Pool(s) /\ s.c.pin /\ k.pin = -1 /\ k.ord = <<>> /\ e.w \in 0..(s.c.w - 1)
                   /\ \A t \in 1..Len(s.tk) : s.tk[t].run = k.run => s.tk[t].pin # e.w
StPin(s, e) == [s EXCEPT !.tk[e.t].pin = e.w]
\* the configuration a graph reports is the one it was last run with
OkConfig(s, e) == On("conf") => SameCfg(e, s.c)
OkEnter(s, e) ==
  LET k == s.tk[e.t]  x == s.bl[e.b]  same == Same(k, s.c, e.b) IN
  /\ k.st = "run" /\ k.blk = 0 /\ k.run = s.run
  /\ s.g \in {"inrun", "up", "instop"}
  /\ On("excl") => x.in = 0 /\ e.ch
  /\ (On("fatal") \/ On("life")) => (s.stop = "yes" => k.after = 0)
  /\ On("fatal") => ~k.failed /\ ~x.dead /\ ~k.pendcb
  /\ On("burst") => /\ x.own \in {0, e.t}
                    /\ (same \/ NewB(k, e.b) # 0)
                    /\ k.owed = "none"
  /\ On("conf") => /\ x.own \in {0, e.t} /\ Cardinality({b \in 1..s.n : s.bl[b].own = e.t} \cup {e.b}) <= Share(s)
                   /\ (Pool(s) /\ s.c.pin => k.pin >= 0)
  /\ On("sleep") => /\ k.owed = "none"
                    /\ IF s.c.asl THEN Near(e.cur, x.cur, 1) /\ e.z = x.z ELSE e.z
StEnter(s, e) ==
  LET k == s.tk[e.t]  same == Same(k, s.c, e.b)  x == s.bl[e.b]
      p == NewB(k, e.b)
      k1 == IF same THEN [k EXCEPT !.cnt = @ + 1, !.must = k.cnt + 1 >= s.c.mc]
            ELSE IF k.lrn /\ p > Len(k.ord) THEN [k EXCEPT !.ord = Append(@, e.b), !.pos = p, !.cnt = 1, !.must = s.c.mc <= 1]
            ELSE IF p = 0 THEN [k EXCEPT !.ord = <<e.b>>, !.pos = 1, !.cnt = 1, !.must = s.c.mc <= 1]   \* out of order: only without the burst rule
            ELSE [k EXCEPT !.lrn = FALSE, !.pos = p, !.cnt = 1, !.must = s.c.mc <= 1]
  IN [s EXCEPT !.tk[e.t] = [k1 EXCEPT !.blk = e.b, !.after = @ + 1, !.owed = "none"],
               !.bl[e.b] = [x EXCEPT !.okb = IF same THEN @ ELSE FALSE, !.in = e.t, !.own = e.t, !.cur = e.cur, !.frst = IF @ < 0 THEN e.at ELSE @]]
OkExit(s, e) == s.tk[e.t].blk = e.b /\ (On("excl") => s.bl[e.b].in = e.t) /\ e.res \in Results
\* a success (the first of its burst) clears the count of consecutive fails and halves the sleep state
StExit(s, e) ==
  LET k == s.tk[e.t]  x == s.bl[e.b]  ok == e.res = "OK"  st == e.res \in Starved  fa == e.res \in Fatal
      f == IF ~s.c.asl THEN 0 ELSE IF st THEN x.fails + 1 ELSE IF ok THEN 0 ELSE x.fails
      owed == IF e.res \in Soft THEN "relax" ELSE IF st /\ s.c.asl THEN (IF f > s.c.thr THEN "sleep" ELSE "relax") ELSE "none"
      s1 == [s EXCEPT !.tk[e.t] = [k EXCEPT !.blk = 0, !.must = @ \/ ~ok, !.owed = owed, !.failed = @ \/ fa, !.pendcb = fa /\ s.c.cb],
                      !.bl[e.b] = [x EXCEPT !.in = 0, !.ok = @ + (IF ok THEN 1 ELSE 0), !.er = @ + (IF ok THEN 0 ELSE 1), !.dead = @ \/ fa,
                                            !.fails = f, !.cur = IF ok /\ ~x.okb THEN @ \div 2 ELSE @, !.okb = @ \/ ok, !.last = e.at],
                      !.ft = @ \/ fa]
  IN IF fa THEN Maybe(s1) ELSE s1
--------------------------------------------------------------------------------
\* back-off.  Task 0 is the user's own task inside run_for.
OkRelax(s, e) == e.t = 0 \/ (s.tk[e.t].st = "run" /\ s.tk[e.t].blk = 0 /\ (On("sleep") => s.tk[e.t].owed # "sleep"))
StRelax(s, e) == IF e.t = 0 THEN s ELSE [s EXCEPT !.tk[e.t].owed = "none"]
\* the sleep state (ns) moves to new: one microsecond first, then multiplied (10% jitter), never above the maximum
Grown(c, x, new) ==
  IF x.z THEN Near(new, MinI(1000, c.max), 1)
  ELSE LET lo == (((x.cur * c.mult) \div 100) * 90) \div 100  hi == ((((((x.cur + 1) * c.mult) \div 100) + 1) * 110) \div 100) + 1
       IN new <= c.max /\ new + 1 >= MinI(lo, c.max) /\ new <= hi
OkSleep(s, e) == e.t = 0 \/
  LET k == s.tk[e.t] IN
  /\ k.st = "run" /\ k.blk = 0 /\ k.pos > 0
  /\ On("sleep") => LET x == s.bl[k.ord[k.pos]] IN s.c.asl /\ k.owed = "sleep" /\ Grown(s.c, x, e.cur) /\ e.us * 1000 <= e.cur + 1 /\ e.us * 1000 >= e.cur - 1000
StSleep(s, e) == IF e.t = 0 THEN s ELSE LET k == s.tk[e.t]  b == k.ord[k.pos] IN
   [s EXCEPT !.tk[e.t].owed = "none", !.bl[b].cur = e.cur, !.bl[b].z = @ /\ s.c.max = 0]
\* termination callback: by the failing task, with the registered context, after the graph reads as stopped
OkCb(s, e) == e.t \in 1..Len(s.tk) /\ (On("fatal") => s.tk[e.t].pendcb /\ e.ctx /\ e.isst)
StCb(s, e) == LET s1 == [s EXCEPT !.tk[e.t].pendcb = FALSE] IN IF Between(s) THEN s1 ELSE Definite(s1)
--------------------------------------------------------------------------------
\* statistics of block b read after the run was stopped
OkStats(s, e) == On("stats") =>
  IF s.c.st /\ s.run > 0 THEN
    LET x == s.bl[e.b] IN
    /\ e.ok = x.ok /\ e.er = x.er /\ e.name
    /\ 0 <= e.dead /\ e.dead <= e.rt + 1
    /\ (x.frst >= 0 => e.rt + 2 >= x.last - x.frst)
    /\ e.rt <= s.atend - s.at0 + 2
  ELSE <<e.ok, e.er>> = s.pub[e.b]
\* every block was given at least k calls
OkServed(s, e) == On("excl") => \A b \in 1..s.n : s.bl[b].ok + s.bl[b].er >= e.k

\* events of a task name a task that was created
Sane(s, e) == "t" \in DOMAIN e /\ e.e # "create" => e.t \in (IF e.e \in {"relax", "sleep"} THEN 0 ELSE 1)..Len(s.tk)
Ok(s, e) == Sane(s, e) /\ CASE e.e = "runcall" -> OkRunCall(s, e) [] e.e = "runret" -> OkRunRet(s, e)
  [] e.e = "stopcall" -> OkStopCall(s, e) [] e.e = "stopret" -> OkStopRet(s, e) [] e.e = "runforret" -> OkRunForRet(s, e)
  [] e.e = "delcall" -> OkStopCall(s, e) [] e.e = "delret" -> OkDelRet(s, e) [] e.e = "isst" -> OkIsStopped(s, e)
  [] e.e = "create" -> OkCreate(s, e) [] e.e = "tstart" -> OkStart(s, e) [] e.e = "tend" -> OkTend(s, e) [] e.e = "join" -> OkJoin(s, e)
  [] e.e = "enter" -> OkEnter(s, e) [] e.e = "exit" -> OkExit(s, e) [] e.e = "relax" -> OkRelax(s, e) [] e.e = "sleep" -> OkSleep(s, e)
  [] e.e = "cb" -> OkCb(s, e) [] e.e = "pin" -> OkPin(s, e) [] e.e = "config" -> OkConfig(s, e) [] e.e = "stats" -> OkStats(s, e) [] e.e = "served" -> OkServed(s, e) [] OTHER -> FALSE
Step(s, e) == CASE e.e = "runcall" -> StRunCall(s, e) [] e.e = "runret" -> StRunRet(s, e)
  [] e.e = "stopcall" -> StStopCall(s, e) [] e.e = "stopret" -> StStopRet(s, e) [] e.e = "runforret" -> StRunForRet(s, e)
  [] e.e = "delcall" -> StStopCall(s, e) [] e.e = "delret" -> StDelRet(s, e) [] e.e = "isst" -> StIsStopped(s, e)
  [] e.e = "create" -> StCreate(s, e) [] e.e = "tstart" -> StStart(s, e) [] e.e = "tend" -> StTend(s, e) [] e.e = "join" -> StJoin(s, e)
  [] e.e = "enter" -> StEnter(s, e) [] e.e = "exit" -> StExit(s, e) [] e.e = "relax" -> StRelax(s, e) [] e.e = "sleep" -> StSleep(s, e)
  [] e.e = "cb" -> StCb(s, e) [] e.e = "pin" -> StPin(s, e) [] OTHER -> s
=============================================================================
