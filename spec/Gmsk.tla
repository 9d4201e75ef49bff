------------------------------- MODULE Gmsk -------------------------------
(* Burst modem.  The modulator turns each frame into preamble, data bits most *)
(* significant first and 2m tail symbols, whole frames only, in order, each   *)
(* frame's buffer released once it is on its way.  The demodulator reports    *)
(* every frame on the air in order: preamble found, sync word found, header,  *)
(* and, when the header announces an acceptable length, the payload; the same *)
(* at the same samples however the samples are cut.                           *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Functions
New(e) == [k |-> e.k, m |-> e.m, P |-> e.P,
           room |-> IF "room" \in DOMAIN e THEN e.room ELSE 0, slots |-> IF "slots" \in DOMAIN e THEN e.slots ELSE 0,
           q |-> <<>>, sent |-> <<>>, held |-> 0, out |-> 0, heard |-> 0, drained |-> 0,
           sync |-> IF "sync" \in DOMAIN e THEN e.sync ELSE 0, hl |-> IF "hl" \in DOMAIN e THEN e.hl ELSE 0,
           fr |-> <<>>, c |-> <<0, 0>>, at |-> <<0, 0>>, log |-> <<>>]
(* ---- modulator ---- *)
Symbols(s, n) == s.P + 8 * n + 2 * s.m
Samples(s, d) == Symbols(s, Len(d)) * s.k
Total(s, ds) == FoldLeft(LAMBDA a, d: a + Samples(s, d), 0, ds)
Bits(d) == FlattenSeq([i \in 1..Len(d) |-> [j \in 1..8 |-> (d[i] \div (2 ^ (8 - j))) % 2]])
FrameBits(s, d) == [i \in 1..s.P |-> (i - 1) % 2] \o Bits(d)
StepOk(s, e) ==
  LET n == e.took IN
  /\ n \in 0..Len(s.q) /\ e.made = Total(s, SubSeq(s.q, 1, n)) /\ e.free = s.slots - s.held + n
  /\ (n < Len(s.q) => s.out + e.made + Samples(s, s.q[n + 1]) > s.room)         \* what fits is sent
(* ---- demodulator ---- *)
Stages(f) == IF ~f.sync THEN 1 ELSE IF ~f.good THEN 3 ELSE 4
Expected(s) == FlattenSeq([i \in 1..Len(s.fr) |-> [j \in 1..Stages(s.fr[i]) |-> <<i, j>>]])
CbOk(s, e) ==
  LET n == s.c[e.who + 1] + 1 x == Expected(s) f == s.fr[x[n][1]] j == x[n][2] IN
  /\ n <= Len(x) /\ e.st = j - 1
  /\ e.h = (IF j >= 3 THEN f.h ELSE <<>>) /\ e.p = (IF j = 4 THEN f.p ELSE <<>>)
  /\ e.at > s.at[e.who + 1] /\ e.at > f.at /\ e.at <= f.end + s.k
  /\ (e.who = 0 \/ e.at = s.log[n])
Ok(s, e) ==
  CASE e.e = "none"  -> e.free = 0 /\ s.held = s.slots
    [] e.e = "in"    -> s.held < s.slots
    [] e.e = "step"  -> StepOk(s, e)
    [] e.e = "drain" -> e.n \in 0..s.out
    [] e.e = "air"   -> /\ s.heard < Len(s.sent) /\ e.bits = FrameBits(s, s.sent[s.heard + 1]) /\ e.n = Samples(s, s.sent[s.heard + 1])
                        /\ e.lo \in 999..1001 /\ e.hi <= 1001
    [] e.e = "cb"    -> CbOk(s, e)
    [] e.e = "fed"   -> e.left = 0 /\ s.c[e.who + 1] = Len(Expected(s))
    [] e.e = "end"   -> s.heard = Len(s.sent)
    [] e.e \in {"crash", "hang", "garbled", "race", "deadlock"} -> FALSE
    [] OTHER -> TRUE
Step(s, e) ==
  CASE e.e = "in"    -> [s EXCEPT !.q = Append(@, e.d), !.held = @ + 1]
    [] e.e = "step"  -> [s EXCEPT !.q = SubSeq(@, e.took + 1, Len(@)), !.sent = @ \o SubSeq(s.q, 1, e.took), !.held = @ - e.took, !.out = @ + e.made]
    [] e.e = "drain" -> [s EXCEPT !.out = @ - e.n]
    [] e.e = "air"   -> [s EXCEPT !.heard = @ + 1]
    [] e.e = "frame" -> [s EXCEPT !.fr = Append(@, e)]
    [] e.e = "cb"    -> [s EXCEPT !.c[e.who + 1] = @ + 1, !.at[e.who + 1] = e.at, !.log = IF e.who = 0 THEN Append(@, e.at) ELSE @]
    [] OTHER -> s
=============================================================================
