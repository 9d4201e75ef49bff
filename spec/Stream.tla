------------------------------- MODULE Stream -------------------------------
(* A stateful signal block is a function from its input stream to its output  *)
(* stream. Per run the trace names, for the whole input, what that function   *)
(* yields (ref, one flat sequence of w integers per sample for every output)  *)
(* and how many outputs each input prefix determines (Upto). Whatever the     *)
(* calls' chunking and the room they find, the outputs are ref's prefix.      *)
EXTENDS Integers, Sequences
Zero(n) == [j \in 1..n |-> 0]
New(ev) == [k |-> ev.kind, m |-> ev.m, w |-> ev.w, n |-> ev.n, need |-> ev.need, cnt |-> ev.cnt, ref |-> ev.ref, tol |-> ev.tol, conc |-> ev.conc,
            used |-> 0, made |-> Zero(Len(ev.ref)), got |-> Zero(Len(ev.ref))]
(* outputs determined by the first u inputs *)
Upto(s, u) == CASE s.k = "each" -> u [] s.k = "frame" -> u \div s.m [] s.k = "table" -> s.cnt[u + 1] [] s.k = "gen" -> s.n [] OTHER -> -1
Outs(s) == DOMAIN s.ref
Abs(x) == IF x < 0 THEN -x ELSE x
Near(s, a, b) == Abs(a - b) <= s.tol + (Abs(b) \div 2000)
(* sample i of a delivery to output j, given that p samples were delivered there before *)
Same(s, j, p, v) == \A i \in DOMAIN v : Near(s, v[i], s.ref[j][s.w * p + i])
Count(s, v) == Len(v) \div s.w
OkCall(s, e) ==
  /\ e.res \in {"OK", "NES", "NESP", "NESOS"}
  /\ e.used >= 0 /\ s.used + e.used <= s.n
  /\ \A j \in Outs(s) : e.made[j] = e.made[1]                         \* outputs stay aligned
  /\ s.made[1] + e.made[1] <= Upto(s, s.used + e.used)                \* nothing invented
  /\ e.made[1] >= 0
OkGot(s, e) ==
  /\ Len(e.v) % s.w = 0
  /\ s.got[e.j] + Count(s, e.v) <= (IF s.conc THEN Upto(s, s.n) ELSE s.made[e.j])
  /\ Same(s, e.j, s.got[e.j], e.v)
OkEnd(s) ==
  /\ ~s.conc => s.got = s.made
  /\ \A j \in Outs(s) : s.got[j] >= s.need
Ok(s, e) == CASE e.e = "call" -> OkCall(s, e) [] e.e = "got" -> OkGot(s, e) [] e.e = "end" -> OkEnd(s) [] OTHER -> FALSE
Step(s, e) == CASE e.e = "call" -> [s EXCEPT !.used = @ + e.used, !.made = [j \in Outs(s) |-> @[j] + e.made[j]]]
                [] e.e = "got" -> [s EXCEPT !.got[e.j] = @ + Count(s, e.v)]
                [] OTHER -> s
=============================================================================
