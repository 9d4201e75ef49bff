-------------------------------- MODULE Kahn --------------------------------
(* A flowgraph as a Kahn network: every stream is a fixed function of the     *)
(* sources; what a sink has received is a prefix of its stream.               *)
(* net: sequence of nodes [k |-> kind, a |-> parameter, in |-> input nodes].  *)
EXTENDS Integers, Sequences, FiniteSets
SrcVal(i, n) == (n * (3 + 2 * i) + (n \div 8)) % 97
RECURSIVE Val(_, _, _), SumV(_, _, _, _)
Val(net, x, n) ==
  LET d == net[x] IN
  CASE d.k = "src" -> SrcVal(d.a, n)
    [] d.k = "gain" -> d.a * Val(net, d.in[1], n)
    [] d.k = "same" -> Val(net, d.in[1], n)
    [] d.k = "add" -> SumV(net, d.in, n, Len(d.in))
    [] d.k = "dec" -> Val(net, d.in[1], d.a * (n - 1) + 1)
    [] d.k = "exp" -> Val(net, d.in[1], ((n - 1) \div d.a) + 1)
SumV(net, ins, n, i) == IF i = 0 THEN 0 ELSE Val(net, ins[i], n) + SumV(net, ins, n, i - 1)
New(ev) == [net |-> ev.nodes, sinks |-> ev.sinks, got |-> [k \in 1..Len(ev.sinks) |-> 0], at |-> [k \in 1..Len(ev.sinks) |-> 0], up |-> FALSE]
Ok(s, e) ==
  CASE e.e = "run" -> ~s.up
    [] e.e = "got" -> s.up /\ \A i \in 1..Len(e.v) : e.v[i] = Val(s.net, s.sinks[e.k], s.got[e.k] + i)
    [] e.e = "stopped" -> s.up /\ (e.adv => \A k \in DOMAIN s.got : s.got[k] >= s.at[k] + e.m)
    [] e.e = "end" -> ~s.up
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.e = "run" -> [s EXCEPT !.up = TRUE, !.at = s.got]
    [] e.e = "got" -> [s EXCEPT !.got[e.k] = @ + Len(e.v)]
    [] e.e = "stopped" -> [s EXCEPT !.up = FALSE]
    [] OTHER -> s
=============================================================================
