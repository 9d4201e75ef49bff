------------------------------ MODULE Throttle ------------------------------
(* A throttle with interval I: a virtual schedule of release times. All times *)
(* are relative to the end of the previous event, in nanoseconds.             *)
(*   lo: no sample may be released before lo   (rate, no catching up)         *)
(*   hi: a supplied sample must be out by hi   (no drift, no needless delay)  *)
EXTENDS Integers, Sequences
Max2(a, b) == IF a > b THEN a ELSE b
Far == -600000000
Cost == 3000                                   \* time the calls themselves may take
RECURSIVE Lo(_, _, _)
Lo(lo, I, rel) == IF rel = <<>> THEN lo ELSE Lo(Max2(lo + I, Head(rel)), I, Tail(rel))
RECURSIVE Early(_, _, _)
Early(lo, I, rel) == IF rel = <<>> THEN FALSE ELSE Head(rel) < lo \/ Early(Max2(lo + I, Head(rel)), I, Tail(rel))
New(e) == [I |-> e.lo, J |-> e.hi, pre |-> e.pre, lo |-> 0, hi |-> 0, on |-> FALSE]
(* (with preemption, pre, only lo is followed)
   schedule after a call that released one sample and returned at ret *)
Next1(s, e, h) == IF (e.sl = 0 /\ e.ret >= h + s.J) \/ e.o >= s.I THEN Max2(h, e.ret) + s.J ELSE h + s.J
Ok(s, e) ==
  CASE e.e = "new" -> ~s.on
    [] e.e = "call" ->
         LET l == s.lo - e.dt   h == s.hi - e.dt IN
         /\ s.on
         /\ Len(e.rel) <= e.n /\ Len(e.rel) <= e.sp
         /\ ~Early(l, s.I, e.rel)
         /\ (e.n > 0 /\ e.sp > 0) => Len(e.rel) > 0 /\ e.res = "OK"
         /\ e.rel = <<>> => \/ e.n = 0 /\ e.res \in {"NES", "NESOS"}
                            \/ e.sp = 0 /\ e.res \in {"NESP", "NESOS"}
         /\ ~s.pre => /\ e.rel = <<>> => e.ret <= Max2(0, h) + e.o + Cost
                      /\ Len(e.rel) = 1 => /\ e.rel[1] <= Max2(0, h) + e.o + Cost
                                           /\ e.ret <= Max2(0, h + s.J) + e.o + Cost
    [] e.e = "zero" -> e.throws
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.e = "new" -> [s EXCEPT !.on = TRUE, !.lo = -e.dt]
    [] e.e = "call" ->
         LET l == s.lo - e.dt   h == IF s.pre THEN 0 ELSE s.hi - e.dt
             h2 == IF s.pre THEN 0 ELSE IF e.rel = <<>> THEN h ELSE IF Len(e.rel) = 1 THEN Next1(s, e, h) ELSE Max2(h, e.ret) + s.J IN
         [s EXCEPT !.lo = Max2(Far, Lo(l, s.I, e.rel) - e.ret), !.hi = Max2(Far, h2 - e.ret)]
    [] OTHER -> s
=============================================================================
