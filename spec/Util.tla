-------------------------------- MODULE Util --------------------------------
(* The small vocabulary users and blocks rely on: power-of-two arithmetic on  *)
(* whole words (numbers are sets of bit positions), bounded strings, results, *)
(* error names, ready-made configurations and the execution report.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions
New(e) == [k |-> e.k, max |-> IF "max" \in DOMAIN e THEN e.max ELSE 0,
           v |-> [i \in 1..(IF "n" \in DOMAIN e THEN e.n ELSE 0) |-> <<>>],      \* strings, or results <<ok, value>>
           names |-> <<>>, blk |-> <<>>, c |-> [none |-> TRUE]]
(* ---- numbers: ascending bit positions ---- *)
Top(x) == x[Len(x)]
Floor2(x) == IF x = <<>> THEN <<>> ELSE <<Top(x)>>
Ceil2Ok(x, c) == IF x \in {<<>>, <<0>>} THEN c = <<0>> ELSE IF Len(x) = 1 THEN c = x ELSE IF Top(x) = 63 THEN TRUE ELSE c = <<Top(x) + 1>>
(* ---- bounded strings: at most max - 1 characters, the rest is cut off ---- *)
Cut(s, x) == IF Len(x) <= s.max - 1 THEN x ELSE SubSeq(x, 1, s.max - 1)
StrNew(s, e) ==
  CASE e.op = "new" -> Cut(s, e.x)
    [] e.op \in {"copy", "assign"} -> s.v[e.b]
    [] e.op = "plus" -> Cut(s, s.v[e.b] \o e.x)
    [] e.op = "plus2" -> Cut(s, s.v[e.b] \o s.v[e.c])
(* ---- results ---- *)
ResNew(s, e) ==
  CASE e.op = "val" -> <<TRUE, e.x>> [] e.op = "err" -> <<FALSE, e.x>>
    [] e.op \in {"copy", "assign"} -> s.v[e.b]
    [] e.op = "set" -> <<s.v[e.a][1], e.x>>
LookOk(s, e) == LET r == s.v[e.a] IN
  /\ e.ok = r[1] /\ e.err = ~r[1]
  /\ e.vthrow = ~r[1] /\ e.ethrow = r[1]                       \* asking for the side that is not there is refused
  /\ (IF r[1] THEN e.v ELSE e.ev) = r[2]
(* ---- error names and classes: codes in order; the sequence of classes is 0 fine, 1 soft, 2 fatal ---- *)
NameOk(s, e) == e.fatal = (e.cls = 2) /\ e.len > 0 /\ e.same
                /\ (e.named => \A i \in 1..Len(s.names) : s.names[i] # e.name)
(* ---- ready-made configurations: what their names promise ---- *)
PresetOk(e) ==
  CASE e.name = "embedded" -> e.sched = "pool" /\ e.w >= 2 /\ ~e.asl
    [] e.name = "desktop"  -> e.sched = "pool" /\ e.w >= 2 /\ ~e.asl
    [] e.name = "sleepy"   -> e.sched = "tpb" /\ e.asl /\ e.mult > 100 /\ e.max > 0
    [] OTHER -> FALSE
(* ---- execution report ---- *)
Near(a, b, d) == a - b <= d /\ b - a <= d
ReportOk(s, e) ==
  IF e.running THEN e.refused ELSE
  /\ ~e.refused /\ e.sched = s.c.sched /\ (s.c.sched = "FixedThreadPool" => e.w = s.c.w) /\ e.asl = s.c.asl /\ e.st = s.c.st
  /\ (s.c.asl => e.mult = s.c.mult /\ e.max = s.c.max /\ e.thr = s.c.thr)
  /\ (s.c.st => /\ Len(e.rows) = Len(s.blk)
                /\ \A i \in 1..Len(s.blk) : LET b == s.blk[i] r == e.rows[i] n == b.ok + b.er IN
                     /\ e.names[i] = b.name
                     /\ Near(r[1] * n, b.ok * 1000, n + 1)
                     /\ (b.rt > 0 => Near(r[2] * (b.rt \div 100), (b.rt - b.dead) * 10, (b.rt \div 40) + 3000))
                     /\ (b.ok > 0 => Near(r[3] * b.ok, b.rt * 10, 2 * b.ok + 10)) /\ (b.ok = 0 => r[3] = 0))
  /\ (~s.c.st /\ s.c.asl => Len(e.rows) = Len(s.blk))
Ok(s, e) ==
  CASE e.e = "num" -> e.f = Floor2(e.x) /\ Ceil2Ok(e.x, e.c) /\ e.p = (Len(e.x) = 1)
    [] e.e = "str" -> e.len = Len(StrNew(s, e)) /\ e.v = StrNew(s, e) /\ e.empty = (StrNew(s, e) = <<>>)
    [] e.e = "all" -> e.v = s.v                                \* nothing else changed
    [] e.e = "look" -> LookOk(s, e)
    [] e.e = "name" -> NameOk(s, e)
    [] e.e = "preset" -> PresetOk(e)
    [] e.e = "blk" -> e.rt >= e.dead
    [] e.e = "report" -> ReportOk(s, e)
    [] e.e = "stub" -> e.threw
    [] e.e = "pin" -> e.asked = 1 /\ e.self /\ e.cores = <<e.w>> /\ e.res = ~e.refused   \* the calling thread, one core, its own
    [] e.e = "nap" -> e.took >= e.us
    [] e.e \in {"crash", "hang", "garbled", "race", "deadlock"} -> FALSE
    [] OTHER -> TRUE
Step(s, e) ==
  CASE e.e = "str" -> [s EXCEPT !.v[e.a] = StrNew(s, e)]
    [] e.e = "res" -> [s EXCEPT !.v[e.a] = ResNew(s, e)]
    [] e.e = "name" -> IF e.named THEN [s EXCEPT !.names = Append(@, e.name)] ELSE s
    [] e.e = "graph" -> [s EXCEPT !.c = e, !.blk = <<>>]
    [] e.e = "blk" -> [s EXCEPT !.blk = Append(@, e)]
    [] OTHER -> s
=============================================================================
