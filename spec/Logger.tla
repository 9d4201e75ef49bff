------------------------------- MODULE Logger -------------------------------
(* The desktop logger: one log file, rotated by size into numbered backups,   *)
(* written from any number of threads.                                        *)
(*                                                                            *)
(* fs maps <<path, n>> (n = 0: the log itself, n > 0: backup n) to the lines  *)
(* in that file; a line is <<message, bytes>>.  In a run of one thread the    *)
(* files are determined by the history; in a run of several threads they must *)
(* be the outcome of some order of the calls that respects real time.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions
Bad == 9        \* a path nothing can be created at
SumLens(q) == FoldLeft(LAMBDA a, x: a + x[2], 0, q)
New(e) == [conc |-> e.conc, started |-> FALSE, path |-> 0, open |-> FALSE, gone |-> {}, on |-> FALSE, max |-> 0, bk |-> 0, lvl |-> 0,
           fs |-> <<>>, out |-> <<>>, t |-> 0, b |-> <<>>, f |-> <<>>, w |-> <<>>, paths |-> <<>>, cb |-> 0, ce |-> 0, winner |-> 0]
(* ---- files ---- *)
Has(fs, k) == k \in DOMAIN fs
Put(fs, k, v) == [x \in (DOMAIN fs) \union {k} |-> IF x = k THEN v ELSE fs[x]]
Dir == << <<0, -1>> >>     \* a directory with something in it, in the way of a backup
Gone(fs, k) == [x \in (DOMAIN fs) \ {k} |-> fs[x]]
Drop(fs, k) == IF Has(fs, k) /\ fs[k] = Dir THEN fs ELSE Gone(fs, k)
Refused(fs, a, b) == Has(fs, b) /\ (fs[b] = Dir \/ fs[a] = Dir)
Move(fs, a, b) == IF Has(fs, a) /\ ~Refused(fs, a, b) THEN Put(Gone(fs, a), b, fs[a]) ELSE fs
Shifted(fs, p, k) == FoldLeft(LAMBDA a, i: Move(a, <<p, k - i>>, <<p, k - i + 1>>), Drop(fs, <<p, k>>), [i \in 1..(k - 1) |-> i])
Rotated(fs, p, k) == LET m == Move(Shifted(fs, p, k), <<p, 0>>, <<p, 1>>) IN IF Has(m, <<p, 0>>) THEN m ELSE Put(m, <<p, 0>>, <<>>)
Opened(s, p) == IF p = Bad \/ p \in s.gone THEN [s EXCEPT !.open = FALSE, !.path = 0]
                ELSE [s EXCEPT !.open = TRUE, !.path = p, !.fs = IF Has(s.fs, <<p, 0>>) THEN s.fs ELSE Put(s.fs, <<p, 0>>, <<>>), !.paths = Append(SelectSeq(s.paths, LAMBDA q: q # p), p)]
OpenResult(s, p) == IF p = Bad \/ p \in s.gone THEN "LOGGER_COULD_NOT_OPEN_FILE" ELSE "LOGGER_SUCCESS"
Full(s) == s.on /\ SumLens(s.fs[<<s.path, 0>>]) >= s.max
Written(s, ln) ==
  IF ~s.open THEN s
  ELSE IF ~Full(s) THEN [s EXCEPT !.fs[<<s.path, 0>>] = Append(@, ln)]
  ELSE IF s.path \in s.gone THEN [s EXCEPT !.open = FALSE, !.on = FALSE]       \* nowhere to rotate to: the file is given up
  ELSE [s EXCEPT !.fs = LET r == Rotated(s.fs, s.path, s.bk) IN [r EXCEPT ![<<s.path, 0>>] = Append(@, ln)]]
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
(* ---- what several threads may leave behind ---- *)
Backups(fs, p) == {k[2] : k \in {x \in DOMAIN fs : x[1] = p}}
Chain(fs, p) == LET n == Max(Backups(fs, p)) IN FoldLeft(LAMBDA a, i: a \o (IF Has(fs, <<p, n - i>>) THEN fs[<<p, n - i>>] ELSE <<>>), <<>>, [i \in 1..(n + 1) |-> i - 1])
Survivors(s, fs) == FoldLeft(LAMBDA a, p: a \o (IF Has(fs, <<p, 0>>) THEN Chain(fs, p) ELSE <<>>), <<>>, s.paths)
Before(s, a, c) == s.f[a] # 0 /\ s.f[a] < s.b[c]                         \* a returned before c began
SizesOk(s, fs, p) ==
  /\ (s.on \/ Backups(fs, p) \subseteq {0}) /\ Backups(fs, p) \subseteq 0..s.bk
  /\ Backups(fs, p) = 0..Max(Backups(fs, p))
  /\ \A n \in Backups(fs, p) : LET q == fs[<<p, n>>] IN
       /\ (~s.on \/ Len(q) = 0 \/ SumLens(Front(q)) < s.max)
       /\ (n = 0 \/ SumLens(q) >= s.max)
ConcOk(s, fs) ==
  LET S == Survivors(s, fs) ids == [i \in 1..Len(S) |-> S[i][1]] here == Range(ids) lost == DOMAIN s.b \ here IN
  /\ here \subseteq DOMAIN s.b /\ Cardinality(here) = Len(S)
  /\ \A i \in 1..Len(S) : s.w[ids[i]] = S[i][2]
  /\ \A i, j \in 1..Len(S) : (i < j) => ~Before(s, ids[j], ids[i])
  /\ \A i \in 1..Len(S) : ~(s.ce # 0 /\ s.b[ids[i]] > s.ce)
  /\ \A m \in lost : \/ s.cb # 0 /\ (s.f[m] = 0 \/ s.f[m] > s.cb)           \* the file was being closed
                     \/ \E p \in Range(s.paths) : /\ s.on /\ Has(fs, <<p, s.bk>>)  \* rotated out: older than everything kept
                                               /\ \A x \in Range(Chain(fs, p)) : ~Before(s, x[1], m)
  /\ \A p \in Range(s.paths) : Has(fs, <<p, 0>>) /\ SizesOk(s, fs, p)
ConcOut(s, out) == /\ Range(out) = DOMAIN s.b /\ Len(out) = Cardinality(DOMAIN s.b)
                   /\ \A i, j \in 1..Len(out) : (i < j) => ~Before(s, out[j], out[i])
(* ---- observed events ---- *)
FsOf(e) == [k \in {<<x.p, x.n>> : x \in Range(e.fs)} |-> (CHOOSE x \in Range(e.fs) : x.p = k[1] /\ x.n = k[2]).l]
Ok(s, e) ==
  CASE e.e = "start"  -> \/ s.conc /\ (e.r = "LOGGER_ALREADY_STARTED" \/ (s.winner = 0 /\ e.r = "LOGGER_SUCCESS"))
                         \/ ~s.conc /\ (e.r = IF s.started THEN "LOGGER_ALREADY_STARTED" ELSE IF e.p = 0 THEN "LOGGER_SUCCESS" ELSE OpenResult(s, e.p))
    [] e.e = "early"  -> s.conc /\ e.r \in {"LOGGER_NOT_STARTED", "LOGGER_SUCCESS"}
    [] e.e = "resetf" -> e.r = IF e.p = 0 THEN "LOGGER_FILEPATH_EMPTY" ELSE IF ~s.started THEN "LOGGER_NOT_STARTED" ELSE OpenResult(s, e.p)
    [] e.e = "verify" -> e.r = IF ~s.open THEN "LOGGER_FILE_PTR_IS_NULL" ELSE IF e.bad = "sync" THEN "LOGGER_FILE_NOT_SYNCED" ELSE IF e.bad = "fd" THEN "LOGGER_FILE_INVALID_FD" ELSE "LOGGER_SUCCESS"
    [] e.e = "started"-> s.winner # 0
    [] e.e = "pre"    -> ~s.conc
    [] e.e = "files"  -> e.fds = (IF s.open THEN 1 ELSE 0) /\ IF s.conc THEN ConcOk(s, FsOf(e)) /\ ConcOut(s, e.out)
                         ELSE FsOf(e) = s.fs /\ e.out = s.out
    [] e.e \in {"race", "crash", "hang", "deadlock", "garbled"} -> FALSE
    [] OTHER -> TRUE
Step(s0, e) ==
  LET s == [s0 EXCEPT !.t = @ + 1] IN
  CASE e.e = "start"  -> IF s.conc THEN (IF e.r = "LOGGER_SUCCESS" THEN [Opened(s, e.p) EXCEPT !.winner = 1, !.started = TRUE] ELSE s)
                         ELSE IF s.started THEN s ELSE IF e.p = 0 THEN [s EXCEPT !.started = TRUE] ELSE [Opened(s, e.p) EXCEPT !.started = TRUE]
    [] e.e = "resetf" -> IF e.p = 0 \/ ~s.started THEN s ELSE Opened(s, e.p)
    [] e.e = "close"  -> [s EXCEPT !.open = FALSE]
    [] e.e = "verify" -> IF e.bad = "" THEN s ELSE [s EXCEPT !.open = FALSE]       \* a file that cannot be trusted is given up
    [] e.e = "rot"    -> [s EXCEPT !.on = TRUE, !.max = IF e.size < 1024 THEN 1024 ELSE e.size, !.bk = Clamp(e.n, 1, 100)]
    [] e.e = "norot"  -> [s EXCEPT !.on = FALSE]
    [] e.e = "early"  -> IF e.r = "LOGGER_SUCCESS" THEN Opened(s, e.p) ELSE s
    [] e.e = "pre"    -> [s EXCEPT !.fs = Put(@, <<e.p, e.n>>, e.l)]
    [] e.e = "blk"    -> [s EXCEPT !.fs = Put(@, <<e.p, e.n>>, Dir)]
    [] e.e = "level"  -> [s EXCEPT !.lvl = e.l]
    [] e.e = "gone"   -> [s EXCEPT !.gone = @ \union {e.p}]
    [] e.e = "lb"     -> IF ~s.started \/ e.lvl < s.lvl THEN s
                         ELSE IF s.conc THEN [s EXCEPT !.b = Put(@, e.m, s.t), !.f = Put(@, e.m, 0), !.w = Put(@, e.m, e.bytes)]
                         ELSE [Written(s, <<e.m, e.bytes>>) EXCEPT !.out = Append(@, e.m)]
    [] e.e = "le"     -> IF e.m \in DOMAIN s.f THEN [s EXCEPT !.f[e.m] = s.t] ELSE s
    [] e.e = "cb"     -> [s EXCEPT !.cb = s.t]
    [] e.e = "ce"     -> [s EXCEPT !.ce = s.t, !.open = FALSE]
    [] OTHER -> s
=============================================================================
