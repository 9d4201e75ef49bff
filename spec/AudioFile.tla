------------------------------ MODULE AudioFile ------------------------------
(* A block that plays an audio file. Its reference is the file decoded and    *)
(* resampled as a whole: total samples, or endlessly when it repeats (-1).    *)
(* Whatever room each call finds, the output is that sequence, nothing lost   *)
(* or repeated; the end is announced once, after the last sample. When the    *)
(* storage fails (fault), the samples before that come out, then the error:   *)
(* the end is never announced.                                                *)
EXTENDS Integers, Sequences
New(e) == [total |-> e.total, valid |-> e.valid, repeat |-> e.repeat, cb |-> e.cb, err |-> e.err, fault |-> e.fault, pos |-> 0, told |-> 0, up |-> FALSE, bad |-> FALSE]
AtEnd(s, p) == s.total >= 0 /\ p = s.total
Good(r) == r \in {"OK", "NES", "NESP", "NESOS"}
CeOk(s, e) ==
  /\ s.up /\ e.n <= e.sp /\ e.good = e.n                              \* the next samples of the reference
  /\ (s.total >= 0 => s.pos + e.n <= s.total)
  /\ e.cb \in {0, 1} /\ (e.cb = 1 => s.cb /\ (~s.fault \/ s.bad) /\ s.told = 0 /\ AtEnd(s, s.pos + e.n))
  /\ (e.res = "NESP" => e.sp = 0)
  /\ IF e.sp = 0 THEN e.n = 0 /\ (e.res \in {"NESP"} \/ AtEnd(s, s.pos))
     ELSE IF s.err \/ s.bad THEN TRUE                                  \* a file the library cannot decode to its end
     ELSE IF s.fault /\ AtEnd(s, s.pos + e.n) THEN e.res \in {"TERM_IO", "TERM"} \/ (e.n > 0 /\ e.res = "OK")
     ELSE IF AtEnd(s, s.pos + e.n) THEN (e.n = 0 => (s.cb /\ ~(s.repeat /\ s.total = 0) => s.told + e.cb = 1)) /\ (e.n > 0 => e.res = "OK")
     ELSE e.n > 0 /\ e.res = "OK"
Ok(s, e) ==
  CASE e.e = "up" -> ~s.up /\ e.ok = s.valid
    [] e.e = "leak" -> e.bytes = 0 /\ e.fds = 0
    [] e.e = "ce" -> CeOk(s, e)
    [] e.e = "end" -> TRUE
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.e = "up" -> [s EXCEPT !.up = e.ok]
    [] e.e = "ce" -> [s EXCEPT !.pos = @ + e.n, !.told = @ + e.cb, !.bad = @ \/ ((s.err \/ s.fault) /\ ~Good(e.res))]
    [] OTHER -> s
=============================================================================
