------------------------------- MODULE Device -------------------------------
(* A block that owns an external device (radio, sound card). The device is    *)
(* seen as: resources acquired and released, settings applied, and a sample   *)
(* stream. Samples are numbered in stream order; runs are <<first, length>>.  *)
(* Sources: pull (the block asks the device) or push (the device calls back). *)
(* Sinks:   push (the block writes) or pull (the device asks for samples).    *)
EXTENDS Integers, Sequences, FiniteSets
Deps == [lib |-> {}, dev |-> {"lib"}, stream |-> {"dev"}, run |-> {"dev"}]
ResNames == {"lib", "dev", "stream", "run"}
New(e) == [blk |-> e.blk, dir |-> e.dir, nch |-> e.nch, want |-> e.want, valid |-> e.valid, thr |-> e.thr, cap |-> e.cap, conc |-> e.conc, uselib |-> e.uselib,
           phase |-> "new", held |-> {}, failed |-> FALSE, cfg |-> {}, \* cfg: {<<key, value>>} as the device has it
           nx |-> 0, rd |-> <<>>, ovf |-> 0, inb |-> FALSE, bat |-> <<>>, last |-> -1, sp |-> <<>>,
           fed |-> [i \in 1..e.nch |-> 0], done |-> 0, sent |-> 0, und |-> 0, inc |-> FALSE, b0 |-> 0, w |-> <<>>, pb |-> <<>>]
Val(s, k) == LET m == {p \in s.cfg : p[1] = k} IN IF m = {} THEN -1 ELSE (CHOOSE p \in m : TRUE)[2]
Set(c, k, v) == {p \in c : p[1] # k} \cup {<<k, v>>}
Configured(s) == \A i \in DOMAIN s.want : Val(s, s.want[i][1]) = s.want[i][2]
MinFed(s) == CHOOSE m \in {s.fed[i] : i \in 1..s.nch} : \A i \in 1..s.nch : m <= s.fed[i]
Avail(s) == MinFed(s) - s.sent
Dependents(r) == CASE r = "lib" -> {"dev", "stream", "run"} [] r = "dev" -> {"stream", "run"} [] r = "stream" -> {"run"} [] OTHER -> {}
(* ---- resources and settings *)
AcqOk(s, e) == /\ e.r \notin s.held /\ s.phase \in {"ctor"} /\ ~s.failed
               /\ (e.r = "dev" /\ s.uselib => "lib" \in s.held) /\ (e.r \in {"stream", "run"} => "dev" \in s.held)
               /\ (e.r = "run" /\ s.blk # "uhd_snk" => Configured(s))   \* nothing is sent before the first send()
RelOk(s, e) == e.r \in s.held /\ Dependents(e.r) \cap s.held = {} /\ (s.phase = "dtor" \/ (s.phase = "ctor" /\ (s.failed \/ ~s.valid)))
UpOk(s, e) == IF e.ok THEN ~s.failed /\ s.valid /\ Configured(s) /\ "run" \in s.held
              ELSE (s.failed \/ ~s.valid) /\ s.held = {}
(* ---- sources the block reads from *)
RdOk(s, e) == s.inc /\ "run" \in s.held /\ e.got <= e.max
SrcCeOk(s, e) ==
  LET got == IF s.rd = <<>> THEN 0 ELSE s.rd[1].got   st == IF s.rd = <<>> THEN "none" ELSE s.rd[1].st IN
  /\ Len(s.rd) <= 1
  /\ \A i \in 1..s.nch : e.out[i] = (IF got = 0 THEN <<>> ELSE <<<<s.nx - got, got>>>>)
  /\ CASE st = "none" -> e.res = "NESP" /\ \E i \in 1..s.nch : s.sp[i] = 0
       [] st \in {"ok"} -> e.res = "OK"
       [] st \in {"timeout", "zero"} -> IF got > 0 THEN e.res = "OK" ELSE e.res \in {"OK", "NES"}
       [] st = "overflow" -> e.res \in {"OK", "NES"}
       [] OTHER -> e.res \notin {"OK", "NES", "NESP", "NESOS"}
  /\ e.ovf = -1 \/ e.ovf = s.ovf
(* ---- sources the device pushes into: batches <<first, n, dropped or -1, output so far>> *)
RECURSIVE Cnt(_, _, _)   \* how much of [f, f+n) the runs cover
Cnt(rs, f, n) == IF rs = <<>> THEN 0 ELSE
  LET lo == IF rs[1][1] > f THEN rs[1][1] ELSE f   hi == IF rs[1][1] + rs[1][2] < f + n THEN rs[1][1] + rs[1][2] ELSE f + n
  IN (IF hi > lo THEN hi - lo ELSE 0) + Cnt(Tail(rs), f, n)
RECURSIVE Incr(_, _)
Incr(rs, last) == rs = <<>> \/ (rs[1][1] > last /\ rs[1][2] > 0 /\ Incr(Tail(rs), rs[1][1] + rs[1][2] - 1))
After(b, rs) == [j \in DOMAIN b |-> <<b[j][1], b[j][2], b[j][3], b[j][4] + Cnt(rs, b[j][1], b[j][2])>>]
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Queued(s) == SumTo([j \in DOMAIN s.bat |-> IF s.bat[j][3] >= 0 THEN s.bat[j][2] - s.bat[j][3] - s.bat[j][4] ELSE 0], Len(s.bat))
Total(rs) == SumTo([j \in DOMAIN rs |-> rs[j][2]], Len(rs))
PushCeOk(s, e) ==
  LET rs == e.out[1]  a == After(s.bat, rs) IN
  /\ Incr(rs, s.last) /\ (rs = <<>> \/ rs[Len(rs)][1] + rs[Len(rs)][2] <= s.nx)
  /\ \A j \in DOMAIN a : a[j][4] <= a[j][2] - (IF a[j][3] >= 0 THEN a[j][3] ELSE 0)
  /\ Total(rs) <= s.sp[1]
  /\ CASE e.res = "OK" -> Total(rs) > 0
       [] e.res = "NES" -> rs = <<>> /\ s.b0 = 0
       [] e.res = "NESP" -> rs = <<>> /\ s.sp[1] = 0
       [] OTHER -> FALSE
PushedOk(s, e) ==
  LET d == e.ovf - s.ovf   room == s.cap - s.pb[1] IN
  s.inb /\ d >= 0 /\ d <= s.pb[2] /\ (d > 0 => (s.pb[2] > room /\ d <= s.pb[2] - (IF room > 0 THEN room ELSE 0)))
DrainedOk(s, e) == e.ovf = s.ovf /\ \A j \in DOMAIN s.bat : s.bat[j][4] = s.bat[j][2] - s.bat[j][3]
(* ---- sinks that write to the device *)
WrOk(s, e) == /\ s.inc /\ "run" \in s.held /\ Len(e.got) = s.nch /\ e.n > 0 /\ e.ret <= e.n /\ e.n <= Avail(s)
              /\ \A i \in 1..s.nch : e.got[i] = <<<<s.sent, e.n>>>>
              /\ (s.w = <<>> \/ s.w[Len(s.w)] \in {"ok", "underflow"})   \* stops at the first refusal
SnkCeOk(s, e) ==
  /\ \A i \in 1..s.nch : e.left[i] = s.fed[i] - s.sent
  /\ LET st == IF s.w = <<>> THEN "none" ELSE s.w[Len(s.w)] IN
     CASE st = "none" -> s.b0 < s.thr /\ (e.res = "NES" \/ (e.res = "OK" /\ (s.thr > 1 \/ s.b0 = 0)))
       [] st \in {"ok", "underflow"} -> e.res = "OK"
       [] st \in {"timeout", "zero"} -> e.res \in {"OK", "NESP"}
       [] OTHER -> e.res \notin {"OK", "NES", "NESP", "NESOS"}
  /\ e.und = -1 \/ e.und = s.und
(* ---- sinks the device asks *)
PullOk(s, e) ==
  LET k == Total(e.got) IN
  /\ s.inb /\ e.got = (IF k = 0 THEN <<>> ELSE <<<<s.sent, k>>>>)
  /\ k + e.zeros = s.pb[2] /\ k <= Avail(s) /\ k >= (IF s.pb[1] < s.pb[2] THEN s.pb[1] ELSE s.pb[2])
  /\ e.und = s.und + (IF e.zeros > 0 THEN 1 ELSE 0)
  /\ e.ret = 0 /\ (s.conc \/ e.left = s.fed[1] - s.sent - k)
Ok(s, e) ==
  CASE e.e = "ctor" -> s.phase = "new"
    [] e.e = "acq" -> AcqOk(s, e)
    [] e.e = "rel" -> RelOk(s, e)
    [] e.e = "use" -> e.r \in s.held
    [] e.e = "fail" -> TRUE
    [] e.e = "cfg" -> "dev" \in s.held /\ s.phase \in {"ctor", "up"}
    [] e.e = "get" -> s.phase = "up" /\ e.v = Val(s, e.k)
    [] e.e = "up" -> s.phase = "ctor" /\ UpOk(s, e)
    [] e.e = "down" -> s.phase = "up"
    [] e.e = "gone" -> s.phase = "dtor" /\ s.held = {}
    [] e.e = "end" -> s.phase = "gone" /\ s.held = {}
    [] e.e \in {"feed", "fdone"} -> TRUE
    [] e.e = "cb" -> s.phase = "up" /\ ~s.inc
    [] e.e = "rd" -> RdOk(s, e)
    [] e.e = "wr" -> WrOk(s, e)
    [] e.e = "ce" -> s.inc /\ (CASE s.dir = "src" -> SrcCeOk(s, e) [] s.dir = "push" -> PushCeOk(s, e) [] s.dir = "snk" -> SnkCeOk(s, e) [] OTHER -> e.res = "OK")
    [] e.e = "push" -> ~s.inb /\ "run" \in s.held
    [] e.e = "pushed" -> PushedOk(s, e)
    [] e.e = "late" -> s.inc
    [] e.e = "drained" -> DrainedOk(s, e)
    [] e.e = "pull" -> ~s.inb /\ "run" \in s.held
    [] e.e = "pulled" -> PullOk(s, e)
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.e = "ctor" -> [s EXCEPT !.phase = "ctor"]
    [] e.e = "acq" -> [s EXCEPT !.held = @ \cup {e.r}]
    [] e.e = "rel" -> [s EXCEPT !.held = @ \ {e.r}]
    [] e.e = "fail" -> IF s.phase = "ctor" THEN [s EXCEPT !.failed = TRUE] ELSE s
    [] e.e = "cfg" -> [s EXCEPT !.cfg = Set(@, e.k, e.v)]
    [] e.e = "up" -> [s EXCEPT !.phase = IF e.ok THEN "up" ELSE "gone"]
    [] e.e = "down" -> [s EXCEPT !.phase = "dtor"]
    [] e.e = "gone" -> [s EXCEPT !.phase = "gone"]
    [] e.e = "feed" -> [s EXCEPT !.fed[e.i] = @ + e.k, !.done = IF s.conc THEN @ ELSE @ + e.k]
    [] e.e = "fdone" -> [s EXCEPT !.done = @ + e.k]   \* the producer has finished writing them
    [] e.e = "cb" -> [s EXCEPT !.inc = TRUE, !.sp = e.sp, !.rd = <<>>, !.w = <<>>, !.b0 = IF s.dir = "push" THEN Queued(s) ELSE Avail(s)]
    [] e.e = "rd" -> [s EXCEPT !.rd = Append(@, [got |-> e.got, st |-> e.st]), !.nx = @ + e.got, !.ovf = IF e.st = "overflow" THEN @ + 1 ELSE @]
    [] e.e = "wr" -> [s EXCEPT !.sent = @ + e.ret, !.w = Append(@, e.st), !.und = IF e.st = "underflow" THEN @ + 1 ELSE @]
    [] e.e = "ce" -> IF s.dir = "push" THEN [s EXCEPT !.inc = FALSE, !.bat = After(@, e.out[1]), !.last = IF e.out[1] = <<>> THEN @ ELSE e.out[1][Len(e.out[1])][1] + e.out[1][Len(e.out[1])][2] - 1]
                     ELSE [s EXCEPT !.inc = FALSE]
    [] e.e = "push" -> [s EXCEPT !.inb = TRUE, !.pb = <<Queued(s), e.n>>, !.bat = Append(@, <<s.nx, e.n, -1, 0>>), !.nx = @ + e.n]
    [] e.e = "pushed" -> [s EXCEPT !.inb = FALSE, !.bat[Len(s.bat)] = <<@[1], @[2], e.ovf - s.ovf, @[4]>>, !.ovf = e.ovf]
    [] e.e = "late" -> [s EXCEPT !.und = @ + 1]
    [] e.e = "pull" -> [s EXCEPT !.inb = TRUE, !.pb = <<IF s.nch = 1 THEN s.done - s.sent ELSE 0, e.n>>]
    [] e.e = "pulled" -> [s EXCEPT !.inb = FALSE, !.sent = @ + Total(e.got), !.und = e.und]
    [] OTHER -> s
=============================================================================
