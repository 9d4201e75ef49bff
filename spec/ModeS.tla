-------------------------------- MODULE ModeS --------------------------------
(* A receiver of Mode S transmissions. What is on the air is a sequence of    *)
(* bit patterns at sample positions; what comes out is, in that order and     *)
(* once each, every message that is whole or can be repaired, its fields read *)
(* at the bit positions of the standard (bit 1 is the first one sent).        *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise
Pow2 == [n \in 0..30 |-> 2^n]
\* ------------------------------------------------------------------ bits
Bit(b, n) == (b[((n - 1) \div 8) + 1] \div Pow2[7 - ((n - 1) % 8)]) % 2
RECURSIVE Fld(_, _, _)
Fld(b, x, y) == IF x > y THEN 0 ELSE 2 * Fld(b, x, y - 1) + Bit(b, y)
Flip(b, n) == [b EXCEPT ![((n - 1) \div 8) + 1] = IF Bit(b, n) = 1 THEN @ - Pow2[7 - ((n - 1) % 8)] ELSE @ + Pow2[7 - ((n - 1) % 8)]]
\* ------------------------------------------------------------------ parity: remainder modulo x^24 + ... (1FFF409)
RECURSIVE Shift(_, _)
Shift(r, k) == IF k = 0 THEN r ELSE Shift(IF r >= 8388608 THEN ((2 * r) % 16777216) ^^ 16774153 ELSE 2 * r, k - 1)
Tab == [x \in 0..255 |-> Shift(x * 65536, 8)]
RECURSIVE Rem(_, _)
Rem(b, n) == IF n = 0 THEN 0 ELSE LET r == Rem(b, n - 1) IN ((r % 65536) * 256) ^^ Tab[(r \div 65536) ^^ b[n]]
Len7(df) == IF df \in {16, 17, 19, 20, 21} THEN 14 ELSE 7
Parity(b, n) == b[n - 2] * 65536 + b[n - 1] * 256 + b[n]
Syn(b, n) == Rem(b, n - 3) ^^ Parity(b, n)
Zero(n) == [i \in 1..n |-> 0]
SynTab == [n \in {7, 14} |-> [j \in 1..8 * n |-> Syn(Flip(Zero(n), j), n)]]
\* ------------------------------------------------------------------ which messages are good
DF(b) == Fld(b, 1, 5)
Ads == {11, 17}
Addressed == {0, 4, 5, 16, 20, 21}
Life == 60
Addr(b) == Fld(b, 9, 32)
\* rate 0 (2 MHz): one wrong bit is repaired; rate 1 (2.4 MHz): it is not
Fix(s, b, n) == LET y == Syn(b, n) IN IF y = 0 \/ s.rate = 1 THEN 0 ELSE IF \E j \in 1..8 * n : SynTab[n][j] = y THEN CHOOSE j \in 1..8 * n : SynTab[n][j] = y ELSE 0
\* v: delivered apart from the filter, b: bytes, err: repaired bit, addr: of the aircraft
Verdict(s, raw) ==
  LET df == DF(raw) n == Len7(df) b == IF Len(raw) >= n THEN SubSeq(raw, 1, n) ELSE raw IN
  IF Len(raw) < n THEN [v |-> FALSE, b |-> b, err |-> 0, addr |-> 0]
  ELSE IF df \in Ads THEN LET f == Fix(s, b, n) c == IF f = 0 THEN b ELSE Flip(b, f) IN [v |-> Syn(c, n) = 0, b |-> c, err |-> f, addr |-> Addr(c)]
  ELSE IF df \in Addressed THEN LET a == Syn(b, n) IN [v |-> a \in DOMAIN s.seen /\ s.now - s.seen[a] <= Life, b |-> b, err |-> 0, addr |-> a]
  ELSE [v |-> FALSE, b |-> b, err |-> 0, addr |-> 0]
Seen(s, v) == IF v.v /\ DF(v.b) \in Ads /\ v.err = 0 THEN [a \in DOMAIN s.seen \cup {v.addr} |-> IF a = v.addr THEN s.now ELSE s.seen[a]] ELSE s.seen
\* ------------------------------------------------------------------ fields
Abs(x) == IF x < 0 THEN -x ELSE x
Ais(c) == IF c \in 1..26 THEN 64 + c ELSE IF c = 32 THEN 32 ELSE IF c \in 48..57 THEN c ELSE 63
Alt12(b) == IF Bit(b, 48) = 1 THEN 25 * (16 * Fld(b, 41, 47) + Fld(b, 49, 52)) - 1000 ELSE 0
Alt13(b) == IF Bit(b, 26) = 0 /\ Bit(b, 28) = 1 THEN 25 * (32 * Fld(b, 20, 25) + 16 * Bit(b, 27) + Fld(b, 29, 32)) - 1000 ELSE 0
Squawk(b) == 1000 * (4 * Bit(b, 25) + 2 * Bit(b, 23) + Bit(b, 21)) + 100 * (4 * Bit(b, 31) + 2 * Bit(b, 29) + Bit(b, 27))
             + 10 * (4 * Bit(b, 24) + 2 * Bit(b, 22) + Bit(b, 20)) + 4 * Bit(b, 32) + 2 * Bit(b, 30) + Bit(b, 28)
\* sine of whole degrees times 10000, by quadrant
Q1 == <<0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564, 1736, 1908, 2079, 2250, 2419, 2588, 2756, 2924, 3090, 3256, 3420, 3584, 3746, 3907, 4067, 4226, 4384, 4540, 4695, 4848, 5000, 5150, 5299, 5446, 5592, 5736, 5878, 6018, 6157, 6293, 6428, 6561, 6691, 6820, 6947, 7071, 7193, 7314, 7431, 7547, 7660, 7771, 7880, 7986, 8090, 8192, 8290, 8387, 8480, 8572, 8660, 8746, 8829, 8910, 8988, 9063, 9135, 9205, 9272, 9336, 9397, 9455, 9511, 9563, 9613, 9659, 9703, 9744, 9781, 9816, 9848, 9877, 9903, 9925, 9945, 9962, 9976, 9986, 9994, 9998, 10000>>
Sin(d0) == LET d == d0 % 360 IN CASE d <= 90 -> Q1[d + 1] [] d <= 180 -> Q1[181 - d] [] d <= 270 -> -Q1[d - 179] [] OTHER -> -Q1[361 - d]
Cos(d) == Sin(d + 90)
VelOk(b, m) ==
  LET ew == Fld(b, 47, 56) ns == Fld(b, 58, 67) u == IF Fld(b, 38, 40) = 2 THEN 4 ELSE 1 X == (ew - 1) * u Y == (ns - 1) * u q == X * X + Y * Y
      x == IF Bit(b, 46) = 1 THEN -X ELSE X y == IF Bit(b, 57) = 1 THEN -Y ELSE Y IN
  IF ew = 0 \/ ns = 0 THEN m.v = 0 /\ m.h = -1
  ELSE /\ m.v >= 0 /\ m.v <= 6000 /\ (m.v - 1) * (m.v - 1) * (IF m.v = 0 THEN 0 ELSE 1) <= q /\ (m.v + 1) * (m.v + 1) > q
       /\ IF m.v = 0 THEN m.h = -1
          ELSE /\ m.h \in 0..360
               /\ Abs(x * Cos(m.h) - y * Sin(m.h)) <= m.v * 215 + 20000 /\ x * Sin(m.h) + y * Cos(m.h) > 0   \* within 1.2 degrees
HeadOk(b, m) ==
  /\ m.v = 0
  /\ IF Bit(b, 46) = 0 THEN m.h = -1
     ELSE m.h \in 0..360 /\ LET d == Abs(m.h * 1024 - Fld(b, 47, 56) * 360) IN (d <= 1034 \/ d >= 359 * 1024 - 10)
NoVel(m) == m.v = 0 /\ m.h = -1 /\ m.vr = 0
NoId(m) == m.fl = <<>>
EsOk(b, m) ==
  LET tc == Fld(b, 33, 37) st == Fld(b, 38, 40) IN
  /\ m.ca = Fld(b, 6, 8) /\ m.tc = tc /\ m.st = st
  /\ CASE tc \in 1..4 -> m.fl = [i \in 1..8 |-> Ais(Fld(b, 35 + 6 * i, 40 + 6 * i))] /\ m.alt = 0 /\ NoVel(m)
       [] tc \in 9..18 -> m.alt = Alt12(b) /\ m.f = (Bit(b, 54) = 1) /\ m.t = (Bit(b, 53) = 1) /\ m.la = Fld(b, 55, 71) /\ m.lo = Fld(b, 72, 88) /\ NoVel(m) /\ NoId(m)
       [] tc = 19 /\ st \in 1..4 -> (IF st <= 2 THEN VelOk(b, m) ELSE HeadOk(b, m)) /\ m.vs = Bit(b, 68) /\ m.vg = Bit(b, 69) /\ m.vr = Fld(b, 70, 78) /\ m.alt = 0 /\ NoId(m)
       [] OTHER -> m.alt = 0 /\ NoVel(m) /\ NoId(m)
Fields(v, m) ==
  LET b == v.b df == DF(b) IN
  /\ m.b = b /\ m.bits = 8 * Len(b) /\ m.df = df /\ m.ok /\ m.err = v.err - 1
  /\ m.aa = <<v.addr \div 65536, (v.addr \div 256) % 256, v.addr % 256>>
  /\ m.unit \in {0, 1} /\ (m.alt # 0 => m.unit = 0)
  /\ CASE df = 17 -> EsOk(b, m)
       [] df = 11 -> m.ca = Fld(b, 6, 8) /\ m.alt = 0 /\ NoVel(m) /\ NoId(m)
       [] df \in {0, 16} -> m.alt = Alt13(b) /\ NoVel(m) /\ NoId(m)
       [] df \in {4, 20} -> m.alt = Alt13(b) /\ m.fs = Fld(b, 6, 8) /\ m.dr = Fld(b, 9, 13) /\ m.um = Fld(b, 14, 19) /\ NoVel(m) /\ NoId(m)
       [] df \in {5, 21} -> m.id = Squawk(b) /\ m.alt = 0 /\ m.fs = Fld(b, 6, 8) /\ m.dr = Fld(b, 9, 13) /\ m.um = Fld(b, 14, 19) /\ NoVel(m) /\ NoId(m)
\* ------------------------------------------------------------------ the stream
Need(s) == IF s.rate = 0 THEN 246 ELSE 310   \* samples from a message's start after which it may not be waited for any longer
ToSet(q) == {q[i] : i \in DOMAIN q}
New(e) == [rate |-> e.rate, allow |-> ToSet(e.allow), now |-> e.now, tx |-> <<>>, i |-> 1, fed |-> 0, took |-> 0, seen |-> [a \in {} |-> 0], ok |-> TRUE]
Wanted(s, v) == v.v /\ DF(v.b) \in s.allow
RECURSIVE Match(_, _)
Match(s, o) ==   \* s after delivering the messages o; ok = FALSE if they are not the next ones
  IF o = <<>> \/ ~s.ok THEN s
  ELSE IF s.i > Len(s.tx) THEN [s EXCEPT !.ok = FALSE]
  ELSE LET v == Verdict(s, s.tx[s.i].b) t == [s EXCEPT !.i = @ + 1, !.seen = Seen(s, v)] IN
       IF ~Wanted(s, v) THEN Match(t, o)
       ELSE IF s.tx[s.i].p > s.fed \/ (Fields(v, o[1]) = TRUE) = FALSE THEN [s EXCEPT !.ok = FALSE]
       ELSE Match(t, Tail(o))
RECURSIVE Drain(_)
Drain(s) ==      \* nothing that is all there may be left
  IF ~s.ok \/ s.i > Len(s.tx) \/ s.tx[s.i].p + Need(s) > s.fed THEN s
  ELSE LET v == Verdict(s, s.tx[s.i].b) IN IF Wanted(s, v) THEN [s EXCEPT !.ok = FALSE] ELSE Drain([s EXCEPT !.i = @ + 1, !.seen = Seen(s, v)])
After(s, e) == LET t == Match(s, e.out) IN IF e.r = "NES" THEN Drain(t) ELSE t
Idle(s) == s.i > Len(s.tx)
Ok(s, e) ==
  CASE e.e = "seg" -> Idle(s) /\ \A k \in 1..Len(e.tx) : e.tx[k].p >= s.fed
    [] e.e = "feed" -> TRUE
    [] e.e = "call" -> /\ e.took <= s.fed - s.took /\ e.took >= 0 /\ Len(e.out) <= e.room
                       /\ CASE e.r = "OK" -> e.took > 0
                            [] e.r = "NES" -> e.took = 0 /\ e.out = <<>>
                            [] e.r = "NESP" -> e.took = 0 /\ e.out = <<>> /\ e.room = 0
                            [] OTHER -> FALSE
                       /\ After(s, e).ok
    [] e.e = "clock" -> Idle(s) /\ e.now >= s.now
    [] e.e = "filter" -> Idle(s)
    [] e.e = "end" -> Idle(s)
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.e = "seg" -> [s EXCEPT !.tx = e.tx, !.i = 1]
    [] e.e = "feed" -> [s EXCEPT !.fed = @ + e.n]
    [] e.e = "call" -> [After(s, e) EXCEPT !.took = @ + e.took]
    [] e.e = "clock" -> [s EXCEPT !.now = e.now]
    [] e.e = "filter" -> [s EXCEPT !.allow = ToSet(e.allow)]
    [] OTHER -> s
=============================================================================
