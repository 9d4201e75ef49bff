------------------------------- MODULE FileIO -------------------------------
(* File source and file sink. Samples are numbered; a sample's observable     *)
(* value is its number modulo m. A list of runs <<f, c>> stands for the       *)
(* values f, f+1, ..., f+c-1 (a run never crosses m).                         *)
(* Source: the file has n whole samples (and possibly part of one more).      *)
(* at = samples delivered so far (the stream repeats with period n).          *)
(* Sink: fed samples were put in, used of them were consumed.                 *)
EXTENDS Integers, Sequences
New(e) == [kind |-> e.kind, m |-> e.m, n |-> e.n, rep |-> e.rep, call |-> e.call, sz |-> e.sz, full |-> e.full,
           at |-> 0, cbs |-> 0, idle |-> 0, bad |-> FALSE, fed |-> 0, used |-> 0, fatal |-> FALSE]
Min(a, b) == IF a < b THEN a ELSE b
(* number of the sample after taking run r at position q of the stream with period n (n < 0: not periodic); -1: wrong *)
Take(q, r, m, n) ==
  IF q < 0 \/ n = 0 THEN -1 ELSE
  LET p == IF n < 0 THEN q ELSE q % n IN
  IF p % m = r[1] /\ r[2] <= m - (p % m) /\ (n < 0 \/ r[2] <= n - p) THEN q + r[2] ELSE -1
RECURSIVE TakeAll(_, _, _, _)
TakeAll(q, rs, m, n) == IF rs = <<>> THEN q ELSE TakeAll(Take(q, Head(rs), m, n), Tail(rs), m, n)
Fatal(r) == r \in {"TERM", "TERM_IO", "TERM_EOF"}
Soft(r) == r \in {"OK", "NES", "NESP", "NESOS"}
(* ---- source ---- *)
Ended(s) == ~s.rep /\ s.at = s.n
After(s, e) == TakeAll(s.at, e.runs, s.m, s.n)
Quiet(s, e) == IF e.runs = <<>> /\ e.space > 0 /\ ~e.fault /\ Soft(e.res) /\ e.cb = 0 THEN s.idle + 1 ELSE 0
OkSource(s, e) ==
  LET a == After(s, e) IN
  /\ a >= s.at /\ a - s.at <= e.space
  /\ ~s.rep => a <= s.n                                             \* nothing after the end
  /\ e.cb > 0 => s.call /\ ~s.rep /\ a = s.n /\ s.cbs + e.cb = 1     \* the end is announced once, and only there
  /\ Soft(e.res) \/ (Fatal(e.res) /\ (s.bad \/ e.fault \/ Ended(s)))  \* fatal only for a failed read or past the end
  /\ \/ Quiet(s, e) < 2                                             \* with space it gets on: delivers or announces
     \/ s.bad \/ (s.rep /\ s.n = 0) \/ (Ended(s) /\ (~s.call \/ s.cbs = 1))
  /\ Fatal(e.res) /\ ~s.bad /\ ~e.fault /\ s.call => s.cbs + e.cb = 1   \* does not die before having announced
StepSource(s, e) ==
  [s EXCEPT !.at = After(s, e), !.cbs = @ + e.cb, !.idle = Quiet(s, e), !.bad = @ \/ (e.fault /\ Fatal(e.res))]
(* ---- sink ---- *)
OkSink(s, e) ==
  CASE e.e = "feed" -> TRUE
    [] e.e = "call" ->
       /\ e.used <= s.fed - s.used
       /\ LET fits == e.lim < 0 \/ s.fed * s.sz <= e.lim IN
          /\ Soft(e.res) \/ (Fatal(e.res) /\ (~fits \/ s.fatal))
          /\ fits /\ ~s.fatal /\ s.fed > s.used => e.used > 0
          /\ ~fits /\ s.fed > s.used /\ e.used = 0 => Fatal(e.res)   \* a failed write is reported
    [] e.e = "end" ->
       LET w == TakeAll(0, e.runs, s.m, -1) IN
       /\ IF s.full THEN e.runs = <<>> /\ s.used = 0                \* a device that takes nothing
          ELSE /\ w >= s.used                                       \* all consumed samples are in the file, in order
               /\ w + (IF e.tail > 0 THEN 1 ELSE 0) <= s.fed        \* and nothing that was never fed
               /\ (w > s.used \/ e.tail > 0) => s.fatal             \* what was not consumed only behind a failed write
    [] OTHER -> FALSE
StepSink(s, e) ==
  CASE e.e = "feed" -> [s EXCEPT !.fed = @ + e.k]
    [] e.e = "call" -> [s EXCEPT !.used = @ + e.used, !.fatal = @ \/ Fatal(e.res)]
    [] OTHER -> s
(* ---- a running flowgraph: source -> sink ---- *)
OkGraph(s, e) ==
  CASE e.e = "end" ->
       LET w == TakeAll(0, e.runs, s.m, IF s.rep THEN s.n ELSE -1)
           x == TakeAll(w, e.left, s.m, IF s.rep THEN s.n ELSE -1) IN
       /\ w >= 0 /\ x >= w /\ e.tail = 0
       /\ ~s.rep => x <= s.n
       /\ e.cb <= (IF s.rep THEN 0 ELSE 1) /\ (e.cb = 1 => x = s.n)
       /\ e.ran => (IF s.rep THEN x > 2 * s.n \/ s.n = 0 ELSE e.cb = 1)  \* it got on
    [] OTHER -> FALSE
Ok(s, e) == IF s.kind = "source" THEN (IF e.e = "call" THEN OkSource(s, e) ELSE FALSE) ELSE IF s.kind = "sink" THEN OkSink(s, e) ELSE OkGraph(s, e)
Step(s, e) == IF s.kind = "source" THEN StepSource(s, e) ELSE IF s.kind = "sink" THEN StepSink(s, e) ELSE s
=============================================================================
