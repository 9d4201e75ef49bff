------------------------------ MODULE Datagram ------------------------------
(* Datagram source and sink blocks. Datagrams carry numbers; class good means *)
(* whole, not larger than promised and accepted by the validator.             *)
(* Source: good = numbers to be delivered, in order; emitted of them are      *)
(* known to have been put in the output, taken have been taken out of it.     *)
(* Sink: fed = samples put in; sent of them have left; lost had a failure.    *)
EXTENDS Integers, Sequences, FiniteSets
New(e) == [kind |-> e.kind, blob |-> e.blob, slots |-> e.slots, ocap |-> e.ocap, call |-> e.call,
           good |-> <<>>, emitted |-> 0, taken |-> 0, cbs |-> 0, held |-> {}, out |-> 0,
           fed |-> <<>>, gone |-> 0, soft |-> FALSE, hard |-> FALSE, cbl |-> <<>>]
IsPrefixAt(v, seq, at) == at + Len(v) <= Len(seq) /\ \A i \in 1..Len(v) : v[i] = seq[at + i]
(* ---- source ---- *)
OkRet(s, e) ==
  LET k == e.on - (s.emitted - s.taken) IN
  /\ k >= 0 /\ s.emitted + k <= Len(s.good) /\ e.on <= s.ocap
  /\ s.blob => Cardinality(s.held) + e.on <= s.slots
  /\ s.call => s.cbs = s.emitted + k                               \* called once for each, before the call returns
  /\ e.res = "TERM_IO" => s.hard                                   \* fatal only for a failed socket
  /\ s.hard => e.res = "TERM_IO"
  /\ e.res \in {"OK", "NES", "NESP", "NESOS", "TERM_IO"}
OkSource(s, e) ==
  CASE e.e = "arrive" -> TRUE
    [] e.e = "cb" -> s.call /\ s.cbs < Len(s.good) /\ e.d = s.good[s.cbs + 1]
    [] e.e = "fault" -> TRUE
    [] e.e = "ret" -> OkRet(s, e)
    [] e.e = "got" -> IsPrefixAt(e.v, s.good, s.taken) /\ s.taken + Len(e.v) <= s.emitted
    [] e.e = "rel" -> e.d \in s.held                                 \* contents kept until given back
    [] e.e = "avail" -> e.n = s.slots - Cardinality(s.held) - (s.emitted - s.taken)
    [] e.e = "path" -> e.gone
    [] e.e = "end" -> s.taken = Len(s.good)                          \* everything accepted was delivered
    [] OTHER -> FALSE                                                \* blocked, val: never
StepSource(s, e) ==
  CASE e.e = "arrive" -> IF e.c = "good" THEN [s EXCEPT !.good = Append(@, e.d)] ELSE s
    [] e.e = "cb" -> [s EXCEPT !.cbs = @ + 1]
    [] e.e = "fault" -> IF e.hard THEN [s EXCEPT !.hard = TRUE] ELSE s
    [] e.e = "ret" -> [s EXCEPT !.emitted = s.taken + e.on, !.hard = FALSE]
    [] e.e = "got" -> [s EXCEPT !.taken = @ + Len(e.v), !.held = IF s.blob THEN @ \cup {e.v[i] : i \in 1..Len(e.v)} ELSE @]
    [] e.e = "rel" -> [s EXCEPT !.held = @ \ {e.d}]
    [] OTHER -> s
(* ---- sink ---- *)
OkSent(s, e) ==
  LET k == Len(e.v)  left == Len(s.fed) - s.gone - k
      failed == s.soft \/ s.hard
      fatal == e.res = "TERM_IO"
      lose == left - e.inn  IN
  /\ IsPrefixAt(e.v, s.fed, s.gone)
  /\ lose \in (IF fatal THEN {0, 1} ELSE {0})                        \* only the sample that failed, and not silently
  /\ fatal => failed
  /\ ~failed /\ Len(s.fed) > s.gone => k > 0
  /\ e.res \in {"OK", "NES", "TERM_IO"}
  /\ s.blob => e.avail = s.slots - e.inn                             \* buffers of what left are back in the pool
  /\ s.call => /\ IsPrefixAt(e.v, s.cbl, 0) /\ Len(s.cbl) - k \in (IF failed THEN {0, 1} ELSE {0})
OkSink(s, e) ==
  CASE e.e = "feed" -> TRUE
    [] e.e = "fault" -> TRUE
    [] e.e = "cb" -> s.call
    [] e.e = "sent" -> OkSent(s, e)
    [] e.e = "end" -> s.gone = Len(s.fed)
    [] OTHER -> FALSE
StepSink(s, e) ==
  CASE e.e = "feed" -> [s EXCEPT !.fed = @ \o e.v]
    [] e.e = "fault" -> IF e.hard THEN [s EXCEPT !.hard = TRUE] ELSE [s EXCEPT !.soft = TRUE]
    [] e.e = "cb" -> [s EXCEPT !.cbl = Append(@, e.d)]
    [] e.e = "sent" -> [s EXCEPT !.gone = Len(s.fed) - e.inn, !.soft = FALSE, !.hard = FALSE, !.cbl = <<>>]
    [] OTHER -> s
(* ---- both, in a running flowgraph ---- *)
OkGraph(s, e) ==
  CASE e.e = "arrive" -> TRUE
    [] e.e = "cb" -> s.cbs < Len(s.good) /\ e.d = s.good[s.cbs + 1]
    [] e.e = "got" -> s.taken < s.cbs /\ e.d = s.good[s.taken + 1]
    [] e.e = "out" -> IsPrefixAt(e.v, s.good, s.gone) /\ s.gone + Len(e.v) <= s.taken
    [] e.e = "end" -> s.gone = Len(s.good)
    [] OTHER -> FALSE
StepGraph(s, e) ==
  CASE e.e = "arrive" -> IF e.c = "good" THEN [s EXCEPT !.good = Append(@, e.d)] ELSE s
    [] e.e = "cb" -> [s EXCEPT !.cbs = @ + 1]
    [] e.e = "got" -> [s EXCEPT !.taken = @ + 1]
    [] e.e = "out" -> [s EXCEPT !.gone = @ + Len(e.v)]
    [] OTHER -> s
(* ---- addresses: what names no endpoint is refused, and nothing stays open ---- *)
Names(e) == IF e.fam = "unix" THEN e.len < 108 ELSE e.colon /\ e.port \in 0..65535 /\ (e.snk => e.host)
OkAddr(e) == CASE e.e = "addr" -> (e.ok <=> (Names(e) /\ ~e.sys)) /\ e.fds = 0 /\ e.gone [] OTHER -> e.e = "end"
Ok(s, e) == CASE s.kind = "addr" -> OkAddr(e) [] s.kind = "source" -> OkSource(s, e) [] s.kind = "sink" -> OkSink(s, e) [] OTHER -> OkGraph(s, e)
Step(s, e) == CASE s.kind = "addr" -> s [] s.kind = "source" -> StepSource(s, e) [] s.kind = "sink" -> StepSink(s, e) [] OTHER -> StepGraph(s, e)
=============================================================================
