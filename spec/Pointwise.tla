------------------------------ MODULE Pointwise ------------------------------
(* A sample-wise block: the i-th sample of every output is a function of the  *)
(* i-th samples of its inputs (and of i). State of one block with its         *)
(* channels: everything ever fed to each input, how many sample tuples were   *)
(* processed, and how many samples were taken from each output.               *)
EXTENDS Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
RECURSIVE Sum(_, _, _)
Sum(cx, xs, i) == IF i = 0 THEN (IF cx THEN <<0, 0>> ELSE 0)
                  ELSE LET r == Sum(cx, xs, i - 1) IN IF cx THEN <<r[1] + xs[i][1], r[2] + xs[i][2]>> ELSE r + xs[i]
Rot(x, q) == CASE q = 0 -> x [] q = 1 -> <<-x[2], x[1]>> [] q = 2 -> <<-x[1], -x[2]>> [] OTHER -> <<x[2], -x[1]>>
(* magnitude and phase, in thousandths, of the points the harness uses *)
Polar(x) == CASE x = <<3, 4>> -> <<5000, 927>> [] x = <<-3, 4>> -> <<5000, 2214>> [] x = <<5, -12>> -> <<13000, -1176>>
  [] x = <<0, 2>> -> <<2000, 1571>> [] x = <<0, -3>> -> <<3000, -1571>> [] x = <<7, 0>> -> <<7000, 0>> [] x = <<-6, 0>> -> <<6000, 3142>>
  [] x = <<1, 1>> -> <<1414, 785>> [] x = <<-2, 2>> -> <<2828, 2356>> [] x = <<8, 15>> -> <<17000, 1081>> [] x = <<-8, -15>> -> <<17000, -2061>>
  [] x = <<0, 0>> -> <<0, 0>>
(* F: n-th (1-based) sample of output j from the n-th input samples xs *)
F(b, xs, n, j) ==
  CASE b.kind = "add" -> Sum(b.cx, xs, Len(xs))
    [] b.kind = "gain" -> IF b.cx THEN CMul(xs[1], b.par) ELSE xs[1] * b.par[1]
    [] b.kind = "reim" -> xs[1][j]
    [] b.kind = "magph" -> Polar(xs[1])[j]
    [] b.kind = "fshift" -> Rot(xs[1], (b.par[1] * ((n - 1) % 4)) % 4)
    [] OTHER -> xs[1]                       \* same, throttle, thr, fan
Near(b, x, y) == IF b.kind = "magph" THEN x - y \in -2..2 ELSE x = y
New(ev) == [kind |-> ev.kind, cx |-> ev.cx, par |-> ev.par, conc |-> ev.conc, fed |-> [i \in 1..ev.nin |-> <<>>],
            n |-> 0, got |-> [j \in 1..ev.nout |-> 0], cb |-> -1, over |-> FALSE]
Fed(s) == MinOf({Len(s.fed[i]) : i \in DOMAIN s.fed})
Ins(s) == DOMAIN s.fed
Outs(s) == DOMAIN s.got
(* success without progress is how these blocks report that there is nothing to do *)
Silent == {"fan", "thr", "null", "nullcb"}
OkCall(s, e) ==
  LET k == Len(s.fed[1]) - s.n - e.inn[1]
      dry == \E i \in Ins(s) : Len(s.fed[i]) = s.n
      full == \E j \in Outs(s) : e.sp[j] = 0
  IN /\ k >= 0 /\ s.n + k <= Fed(s)
     /\ \A i \in Ins(s) : e.inn[i] = Len(s.fed[i]) - s.n - k          \* aligned consumption
     /\ \A j \in Outs(s) : e.on[j] = s.n + k - s.got[j]               \* as much produced as consumed
     /\ k > 0 => e.res = "OK" /\ ~full
     /\ (~dry /\ ~full /\ s.kind # "nullcb") => k > 0                 \* works when it can
     /\ k = 0 => \/ e.res = "OK" /\ s.kind \in Silent
                 \/ e.res = "NES" /\ dry
                 \/ e.res = "NESP" /\ full
                 \/ e.res = "NESOS" /\ (dry \/ full)
     /\ s.kind = "null" => e.inn[1] = 0
     /\ s.kind = "nullcb" => IF s.cb = -1 THEN k = 0 /\ dry ELSE k = s.cb
     /\ s.kind = "thr" => e.pass = s.n + k
OkGot(s, e) ==
  LET g == s.got[e.j] IN
  /\ g + Len(e.v) <= (IF s.conc THEN Fed(s) ELSE s.n)
  /\ \A i \in 1..Len(e.v) : Near(s, F(s, [x \in Ins(s) |-> s.fed[x][g + i]], g + i, e.j), e.v[i]) = TRUE
Ok(s, e) ==
  CASE e.e = "feed" -> e.i \in Ins(s)
    [] e.e = "got" -> OkGot(s, e)
    [] e.e = "call" -> ~s.conc /\ OkCall(s, e)
    [] e.e = "cb" -> /\ s.kind = "nullcb" /\ s.cb = -1 /\ e.n = Len(s.fed[1]) - s.n
                     /\ \A i \in 1..Len(e.v) : e.v[i] = s.fed[1][s.n + i]
    [] e.e = "quiet" -> /\ s.conc /\ \A j \in Outs(s) : s.got[j] = Fed(s)
                        /\ \A i \in Ins(s) : e.inn[i] = Len(s.fed[i]) - Fed(s)
                        /\ s.kind = "thr" => e.pass = Fed(s)
    [] e.e = "end" -> s.conc \/ \A j \in Outs(s) : s.got[j] = s.n
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.e = "feed" -> [s EXCEPT !.fed[e.i] = @ \o e.v]
    [] e.e = "got" -> [s EXCEPT !.got[e.j] = @ + Len(e.v)]
    [] e.e = "call" -> [s EXCEPT !.n = Len(s.fed[1]) - e.inn[1], !.cb = -1]
    [] e.e = "cb" -> [s EXCEPT !.cb = Len(e.v)]
    [] OTHER -> s
=============================================================================
