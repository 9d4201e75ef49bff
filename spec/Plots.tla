------------------------------- MODULE Plots -------------------------------
(* Plot blocks between a graph thread (calls) and a GUI thread (renders).    *)
(*   ts    a window of consumed samples against their times                   *)
(*   fft   averaged spectrum of the last nfft consumed samples                *)
(*   gram  one row per nfft consumed samples, newest first                    *)
(* Whatever a frame shows belongs, for every input, to one common number of   *)
(* consumed samples. Values are dB in hundredths; ref.rows is what an         *)
(* independent transform yields for the nfft samples before position ref.at.  *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Skip == -99999
New(e) == [k |-> e.kind, n |-> e.n, win |-> e.win, nfft |-> e.nfft, tall |-> e.tall, sps |-> e.sps,
           fed |-> [i \in 1..e.n |-> 0], cons |-> 0, inc |-> FALSE, inr |-> FALSE, over |-> FALSE, start |-> 0,
           pause |-> {FALSE}, was |-> FALSE, cp |-> {}, last |-> 0, refs |-> <<>>, ats |-> <<>>, alpha |-> 70, avg |-> <<>>]
MinFed(s) == CHOOSE m \in {s.fed[i] : i \in 1..s.n} : \A i \in 1..s.n : m <= s.fed[i]
Avail(s) == MinFed(s) - s.cons
Const(t, x) == \A i \in DOMAIN t : t[i] = x
(* ---- one call of the block *)
CallOk(s, e, p) ==
  IF p THEN e.res = "OK" /\ Const(e.took, 0)
  ELSE LET m == Avail(s)   t == e.took[1] IN
       /\ Const(e.took, t)
       /\ IF s.k = "gram" THEN IF m < s.nfft THEN e.res = "NES" /\ t = 0 ELSE e.res = "OK" /\ t >= s.nfft /\ t <= m /\ (t % s.nfft) = 0
          ELSE IF m = 0 THEN e.res = "NES" /\ t = 0 ELSE e.res = "OK" /\ t >= 1 /\ t <= m
(* ---- what a frame may show *)
Known(s) == IF s.over THEN {j \in DOMAIN s.ats : s.ats[j] >= s.last /\ s.ats[j] >= (IF s.k = "gram" THEN s.start - (s.start % s.nfft) ELSE 0)} ELSE {j \in DOMAIN s.ats : s.ats[j] = s.cons - (IF s.k = "gram" THEN (s.cons % s.nfft) ELSE 0)}
Labels(s, e) == Len(e.lines) = s.n /\ \A i \in 1..s.n : e.lines[i].i = i
TsOk(s, e) ==
  LET r == e.lines[1].x IN
  /\ Len(r) = 1
  /\ \A i \in 1..s.n : e.lines[i].x = r /\ e.lines[i].y = r
  /\ r[1][1] >= 0 /\ r[1][2] >= 1
  /\ LET q == r[1][1] + r[1][2] IN
     /\ q >= s.last /\ q <= MinFed(s) /\ (~s.over => q = s.cons)
     /\ r[1][2] >= s.win \/ r[1][1] = 0
Old(s, i, b) == s.avg[i][b]
Want(s, v, i, b) == IF s.avg = <<>> THEN v ELSE (s.alpha * v + (100 - s.alpha) * Old(s, i, b)) \div 100
FftMatch(s, e, j) == \A i \in 1..s.n : \A b \in 1..s.nfft :
  s.refs[j][i][b] = Skip \/ Abs(e.lines[i].y[b] - Want(s, s.refs[j][i][b], i, b)) <= 6
FftOk(s, e) ==
  /\ \A i \in 1..s.n : Len(e.lines[i].y) = s.nfft /\ Len(e.lines[i].x) = s.nfft
  /\ \A i \in 1..s.n : \A b \in 1..s.nfft : Abs(e.lines[i].x[b] - (s.sps * (b - 1) - (s.sps * s.nfft) \div 2)) <= 1
  /\ \E j \in Known(s) : FftMatch(s, e, j)
RECURSIVE Block(_, _, _)   \* index of the reference for position a (0: not there)
Block(s, a, j) == IF j = 0 THEN 0 ELSE IF s.ats[j] = a THEN j ELSE Block(s, a, j - 1)
RowOk(s, v, a, i) == IF a <= 0 THEN \A b \in 1..s.nfft : v[b] = -14700
  ELSE LET j == Block(s, a, Len(s.ats)) IN j > 0 /\ \A b \in 1..s.nfft : s.refs[j][i][b] = Skip \/ Abs(v[b] - s.refs[j][i][b]) <= 6
GramAt(s, e, a) == \A i \in 1..s.n : \A r \in 1..s.tall : RowOk(s, e.lines[i].y[r], a - (r - 1) * s.nfft, i)
GramOk(s, e) ==
  /\ \A i \in 1..s.n : Len(e.lines[i].y) = s.tall /\ \A r \in 1..s.tall : Len(e.lines[i].y[r]) = s.nfft
  /\ \/ \E j \in Known(s) : GramAt(s, e, s.ats[j])
     \/ s.last = 0 /\ (s.over \/ s.cons < s.nfft) /\ s.start < s.nfft /\ GramAt(s, e, 0)
(* a frame without data: the plot is hidden, or there was not enough to show *)
Blank(s, e) == \/ ~e.vis
               \/ s.k # "gram" /\ s.last = 0 /\ (s.over \/ s.cons < (IF s.k = "fft" THEN s.nfft ELSE 1))
FrameOk(s, e) ==
  /\ e.bal
  /\ IF e.shown THEN Labels(s, e) /\ (CASE s.k = "ts" -> TsOk(s, e) [] s.k = "fft" -> FftOk(s, e) [] OTHER -> GramOk(s, e))
     ELSE Blank(s, e)
Pos(s, e) == CASE s.k = "ts" -> e.lines[1].x[1][1] + e.lines[1].x[1][2]
               [] s.k = "fft" -> s.ats[CHOOSE j \in Known(s) : FftMatch(s, e, j)]
               [] OTHER -> IF \E j \in Known(s) : GramAt(s, e, s.ats[j]) THEN s.ats[CHOOSE j \in Known(s) : GramAt(s, e, s.ats[j])] ELSE s.last
Ok(s, e) ==
  CASE e.e = "feed" -> TRUE
    [] e.e = "ref" -> TRUE
    [] e.e = "cb" -> ~s.inc
    [] e.e = "ce" -> s.inc /\ \E p \in s.cp : CallOk(s, e, p)
    [] e.e = "rb" -> ~s.inr
    [] e.e = "press" -> s.inr
    [] e.e = "alpha" -> s.inr
    [] e.e = "re" -> s.inr /\ FrameOk(s, e)
    [] e.e = "end" -> TRUE
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.e = "feed" -> [s EXCEPT !.fed[e.i] = @ + e.k]
    [] e.e = "ref" -> [s EXCEPT !.refs = Append(@, e.rows), !.ats = Append(@, e.at)]
    [] e.e = "cb" -> [s EXCEPT !.inc = TRUE, !.cp = s.pause, !.over = TRUE]
    [] e.e = "ce" -> [s EXCEPT !.inc = FALSE, !.cp = {}, !.cons = @ + e.took[1]]
    [] e.e = "rb" -> [s EXCEPT !.inr = TRUE, !.over = s.inc, !.start = s.cons]
    [] e.e = "press" -> LET q == {TRUE, FALSE} IN [s EXCEPT !.pause = q, !.was = IF Cardinality(s.pause) = 1 THEN CHOOSE b \in s.pause : TRUE ELSE ~@, !.cp = IF s.inc THEN @ \cup q ELSE @]
    [] e.e = "alpha" -> [s EXCEPT !.alpha = e.v]
    [] e.e = "re" -> LET t == [s EXCEPT !.inr = FALSE, !.pause = IF Cardinality(@) = 2 THEN {~s.was} ELSE @] IN
                     IF ~e.shown THEN t ELSE [t EXCEPT !.last = Pos(s, e), !.avg = IF s.k = "fft" THEN [i \in 1..s.n |-> e.lines[i].y] ELSE @]
    [] OTHER -> s
=============================================================================
