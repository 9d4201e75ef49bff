------------------------------ MODULE Aircraft ------------------------------
(* The aircraft table as the fold of the messages received: per address the   *)
(* latest identification, altitude, velocity and position, a position being   *)
(* the one that an even and an odd frame, at most ten seconds apart, locate   *)
(* together (compact position reporting, here in integers of 1e-7 degrees).   *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
\* ------------------------------------------------------------------ compact position reporting
Zones == <<104704713, 148281744, 181862636, 210293949, 235450449, 258292471, 279389871, 299113569, 317720971, 335399344, 352289960, 368502511, 384124189, 399225668, 413865183, 428091401, 441945495, 455462672, 468673325, 481603913, 494277644, 506715017, 518934247, 530951615, 542781747, 554437844, 565931876, 577274735, 588476378, 599545928, 610491777, 621321666, 632042748, 642661652, 653184531, 663617101, 673964677, 684232202, 694424263, 704545107, 714598647, 724588454, 734517744, 744389342, 754205626, 763968439, 773678946, 783337408, 792942823, 802492321, 811980135, 821395698, 830719944, 839917356, 848916619, 857554162, 865353700, 870000000>>
NL(lat) == LET a == Abs(lat) IN IF \A i \in 1..58 : a >= Zones[i] THEN 1 ELSE 60 - (CHOOSE i \in 1..58 : a < Zones[i] /\ \A k \in 1..(i - 1) : a >= Zones[k])
Max1(x) == IF x < 1 THEN 1 ELSE x
Turn == 131072
Deg(n, z) == LET a == n \div z b == n % z IN a * 27465 + (a * 8203) \div 10000 + (b * 27466) \div z    \* n / (z 2^17) of a turn
\* ev, od: [la, lo]; the position according to the frame that came last
Locate(ev, od, odd) ==
  LET j == (59 * ev.la - 60 * od.la + 65536) \div Turn
      a0 == (j % 60) * Turn + ev.la  n0 == IF a0 >= 45 * Turn THEN a0 - 60 * Turn ELSE a0
      a1 == (j % 59) * Turn + od.la  n1 == IF 4 * a1 >= 177 * Turn THEN a1 - 59 * Turn ELSE a1
      in == Abs(n0) <= 15 * Turn /\ 4 * Abs(n1) <= 59 * Turn
      l0 == Deg(n0, 60)  l1 == Deg(n1, 59)  z == NL(l0)
      m == (ev.lo * (z - 1) - od.lo * z + 65536) \div Turn
      ni == Max1(IF odd THEN z - 1 ELSE z)
      c == (m % ni) * Turn + (IF odd THEN od.lo ELSE ev.lo)
      w == IF 2 * c >= ni * Turn THEN c - ni * Turn ELSE c IN
  IF ~in THEN [ok |-> FALSE, lat |-> 0, lon |-> 0, ni |-> 1]
  ELSE IF NL(l1) # z THEN [ok |-> FALSE, lat |-> 0, lon |-> 0, ni |-> 1]
  ELSE [ok |-> TRUE, lat |-> IF odd THEN l1 ELSE l0, lon |-> Deg(w, ni), ni |-> ni]
Near(a, b, t) == IF (a < 0) = (b < 0) THEN Abs(a - b) <= t
                 ELSE IF Abs(a) < 900000000 THEN Abs(a) + Abs(b) <= t
                 ELSE (1800000000 - Abs(a)) + (1800000000 - Abs(b)) <= t    \* the two sides of the date line
\* ------------------------------------------------------------------ the table
NoFrame == [has |-> FALSE, la |-> 0, lo |-> 0, t |-> 0, g |-> -1, tla |-> 0, tlo |-> 0]
Fresh(a) == [icao |-> a, cs |-> <<>>, alt |-> 0, gs |-> 0, tr |-> 0, vr |-> 0, valid |-> FALSE, lat |-> 0, lon |-> 0, pt |-> 0, last |-> 0, n |-> 0, ev |-> NoFrame, od |-> NoFrame]
PairAge == 10
IsId(m) == m.df = 17 /\ m.tc \in 1..4 /\ m.fl # <<>>
IsVel(m) == m.df = 17 /\ m.tc = 19
IsPos(m) == m.df = 17 /\ m.tc \in 9..18
Rate(m) == (IF m.vg = 1 THEN -64 ELSE 64) * (m.vr - 1)
Position(a, m, now) ==
  LET fr == [has |-> TRUE, la |-> m.la, lo |-> m.lo, t |-> now, g |-> m.g, tla |-> m.tla, tlo |-> m.tlo]
      b == IF m.f THEN [a EXCEPT !.od = fr] ELSE [a EXCEPT !.ev = fr]
      pair == b.ev.has /\ b.od.has /\ Abs(b.ev.t - b.od.t) <= PairAge
      p == Locate(b.ev, b.od, m.f) IN
  IF ~pair THEN [a |-> b, fix |-> FALSE, true |-> TRUE]
  ELSE IF p.ok THEN [a |-> [b EXCEPT !.valid = TRUE, !.lat = p.lat, !.lon = p.lon, !.pt = now], fix |-> TRUE,
                     true |-> (b.ev.g = b.od.g /\ m.g >= 0) => Near(p.lat, m.tla, 300) /\ Near(p.lon, m.tlo, 13900 \div p.ni + 60)]
  ELSE [a |-> [b EXCEPT !.ev.has = FALSE, !.od.has = FALSE], fix |-> FALSE, true |-> TRUE]
\* a: the aircraft before; the aircraft after, whether anything worth telling changed
Learn(a, m, now) ==
  LET a1 == IF IsId(m) THEN [a EXCEPT !.cs = m.fl] ELSE a
      a2 == IF m.alt > 0 THEN [a1 EXCEPT !.alt = m.alt] ELSE a1
      a3 == IF IsVel(m) /\ m.v > 0 THEN [a2 EXCEPT !.gs = m.v] ELSE a2
      a4 == IF IsVel(m) /\ m.h >= 0 THEN [a3 EXCEPT !.tr = m.h] ELSE a3
      a5 == IF IsVel(m) /\ m.vr # 0 THEN [a4 EXCEPT !.vr = Rate(m)] ELSE a4
      p == IF IsPos(m) THEN Position(a5, m, now) ELSE [a |-> a5, fix |-> FALSE, true |-> TRUE] IN
  [a |-> [p.a EXCEPT !.last = now, !.n = @ + 1], told |-> a5 # a \/ p.fix, true |-> p.true]
Has(T, x) == x \in DOMAIN T
Put(T, x, a) == [y \in DOMAIN T \cup {x} |-> IF y = x THEN a ELSE T[y]]
\* ------------------------------------------------------------------ what is seen
SameState(a, q) ==  \* an aircraft of the table, a record shown
  /\ q.icao = a.icao /\ q.cs = a.cs /\ q.alt = a.alt /\ q.gs = a.gs /\ q.tr = a.tr /\ q.vr = a.vr /\ q.valid = a.valid /\ q.last = a.last /\ q.n = a.n
  /\ (a.valid => Near(a.lat, q.lat, 60) /\ Near(a.lon, q.lon, 60) /\ q.pt = a.pt)
SameTable(T, qs) == Len(qs) = Cardinality(DOMAIN T) /\ Cardinality({qs[i].icao : i \in DOMAIN qs}) = Len(qs) /\ \A i \in DOMAIN qs : Has(T, qs[i].icao) /\ SameState(T[qs[i].icao], qs[i]) = TRUE
\* the first max records, whichever they are
PartOf(T, qs, max) == Len(qs) = (IF Cardinality(DOMAIN T) < max THEN Cardinality(DOMAIN T) ELSE max) /\ Cardinality({qs[i].icao : i \in DOMAIN qs}) = Len(qs) /\ \A i \in DOMAIN qs : Has(T, qs[i].icao) /\ SameState(T[qs[i].icao], qs[i]) = TRUE
\* a frame: one arrow per aircraft with a position, at its place (tenths of pixels), pointing along its track, labelled with its callsign
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Px(s, lon) == Clamp((s.w * 5) + ((lon \div 1000 - s.clon) * s.ppd) \div 10000, 0, s.w * 10)      \* ppd: tenths of pixels per degree; c*: 1e-4 degrees
Py(s, lat) == Clamp((s.h * 5) - ((lat \div 1000 - s.clat) * s.ppd) \div 10000, 0, s.h * 10)
Arrow(s, a, t) == Abs(t.x - Px(s, a.lon)) <= 40 /\ Abs(t.y - Py(s, a.lat)) <= 40 /\ (LET d == (t.dir - a.tr) % 360 IN d <= 5 \/ d >= 355) /\ (t.amb \/ t.label = a.cs)
Drawn(s, T, d) ==
  LET V == {x \in DOMAIN T : T[x].valid} IN
  /\ Len(d) = Cardinality(V)
  /\ \A x \in V : \E i \in DOMAIN d : Arrow(s, T[x], d[i]) = TRUE
  /\ \A i \in DOMAIN d : \E x \in V : Arrow(s, T[x], d[i]) = TRUE
\* ------------------------------------------------------------------ the coastline file: the parts of its complete polyline records
Sound(r) == r.type = 3 /\ r.np > 0 /\ r.n > 0 /\ 44 + 4 * r.np + 16 * r.n <= r.len /\ r.np <= Len(r.idx) /\ r.n <= Len(r.pts)
            /\ \A i \in 1..r.np : r.idx[i] <= (IF i < r.np THEN r.idx[i + 1] ELSE r.n) /\ r.idx[i] <= r.n
PartsOf(r) == SelectSeq([i \in 1..r.np |-> SubSeq(r.pts, r.idx[i] + 1, IF i < r.np THEN r.idx[i + 1] ELSE r.n)], LAMBDA p : p # <<>>)
RECURSIVE Lines(_, _)
Lines(rs, size) == IF rs = <<>> \/ rs[1].at + 8 + rs[1].len > size THEN <<>> ELSE (IF Sound(rs[1]) = TRUE THEN PartsOf(rs[1]) ELSE <<>>) \o Lines(Tail(rs), size)
\* counts that fit the record although they are wrong: whatever is read, it is read from the record
Lying(r) == r.type = 3 /\ ~(r.np = Len(r.idx) /\ r.n = Len(r.pts)) /\ 44 + 4 * r.np + 16 * r.n <= r.len
Coast(e) == LET g == Lines(e.recs, IF e.size < 100 THEN 0 ELSE e.size) IN (\E i \in DOMAIN e.recs : Lying(e.recs[i])) \/ (e.got = g /\ e.ok = (g # <<>>))
\* ------------------------------------------------------------------ histories
\* hist[k]: the table after base + k - 1 messages; tell[k]: what the k-th message past base changed; low: per reader the least it may still see
New(e) == [clat |-> e.clat, clon |-> e.clon, w |-> e.w, h |-> e.h, ppd |-> e.ppd, cb |-> e.cb, hist |-> <<[x \in {} |-> Fresh(0)]>>, tell |-> <<>>, base |-> 0, done |-> 0, low |-> [t \in {} |-> 0], true |-> TRUE]
RECURSIVE Fold(_, _, _)
Fold(s, ms, now) ==
  IF ms = <<>> THEN s
  ELSE LET m == ms[1] T == s.hist[Len(s.hist)] r == Learn(IF Has(T, m.aa) THEN T[m.aa] ELSE Fresh(m.aa), m, now) IN
       Fold([s EXCEPT !.hist = Append(@, Put(T, m.aa, r.a)), !.tell = Append(@, [told |-> r.told, a |-> r.a]), !.true = @ /\ r.true], Tail(ms), now)
Pushed(s) == s.base + Len(s.hist) - 1
Tables(s, lo) == {s.hist[k - s.base + 1] : k \in lo..Pushed(s)}
RECURSIVE Told(_, _, _)
Told(s, k, n) == IF n = 0 THEN <<>> ELSE LET x == s.tell[k - s.base + 1] IN (IF x.told THEN <<x.a>> ELSE <<>>) \o Told(s, k + 1, n - 1)
Ok(s, e) ==
  CASE e.e = "push" -> Fold(s, e.ms, e.now).true
    [] e.e = "proc" -> /\ e.n <= Pushed(s) - s.done
                       /\ IF e.n = 0 THEN e.r = "NES" /\ Pushed(s) = s.done /\ e.cb = <<>>
                          ELSE e.r = "OK" /\ LET t == Told(s, s.done, e.n) IN IF s.cb THEN Len(t) = Len(e.cb) /\ \A i \in DOMAIN t : SameState(t[i], e.cb[i]) = TRUE ELSE e.cb = <<>>
    [] e.e = "sb" -> e.th \notin DOMAIN s.low
    [] e.e = "snap" -> \E T \in Tables(s, s.low[e.th]) : IF e.max < 0 THEN SameTable(T, e.q) ELSE PartOf(T, e.q, e.max)
    [] e.e = "count" -> \E T \in Tables(s, s.low[e.th]) : e.n = Cardinality(DOMAIN T)
    [] e.e = "draw" -> \E T \in Tables(s, s.low[e.th]) : Drawn(s, T, e.tri)
    [] e.e = "shp" -> Coast(e)
    [] e.e = "end" -> DOMAIN s.low = {}
    [] OTHER -> FALSE
Forget(s) == IF DOMAIN s.low # {} \/ s.done = s.base THEN s ELSE LET d == s.done - s.base IN [s EXCEPT !.hist = SubSeq(@, d + 1, Len(@)), !.tell = SubSeq(@, d + 1, Len(@)), !.base = s.done]
Leave(s, t) == [s EXCEPT !.low = [x \in DOMAIN @ \ {t} |-> @[x]]]
Step(s, e) ==
  CASE e.e = "push" -> Fold(s, e.ms, e.now)
    [] e.e = "proc" -> Forget([s EXCEPT !.done = @ + e.n])
    [] e.e = "sb" -> [s EXCEPT !.low = [x \in DOMAIN @ \cup {e.th} |-> IF x = e.th THEN s.done ELSE @[x]]]
    [] e.e \in {"snap", "count", "draw"} -> Leave(s, e.th)
    [] OTHER -> s
=============================================================================
