----------------------------- MODULE DiagramImpl -----------------------------
(* How the parser finds connections: it walks the tree from the root. A call of *)
(* make_..._flowgraph hands in all its runners at once, and the walk then meets *)
(* each of them again as a call of its own, so every wire may be seen twice.    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Blk, Chan, MaxRuns, Variant
VARIABLES runs, wrap, pos, found, used
vars == <<runs, wrap, pos, found, used>>
Targets == {<<>>} \cup {<<t>> : t \in Blk \X Chan} \cup {<<t, u>> : t \in Blk \X Chan, u \in Blk \X Chan}
Runner == Blk \X Targets
Init == /\ runs \in UNION {[1..n -> Runner] : n \in 1..MaxRuns} /\ wrap \in BOOLEAN
        /\ pos = 0 /\ found = <<>> /\ used = {}
Same(a, b) == IF Variant = "noindex" THEN a[1] = b[1] /\ a[2] = b[2] ELSE a = b
RECURSIVE Add(_, _, _)
Add(f, src, ts) == IF ts = <<>> THEN f ELSE
  LET w == <<src, ts[1][1], ts[1][2]>> IN
  Add(IF Variant # "twice" /\ \E i \in 1..Len(f) : Same(f[i], w) THEN f ELSE Append(f, w), src, Tail(ts))
RECURSIVE AddRuns(_, _)
AddRuns(f, i) == IF i > Len(runs) THEN f ELSE AddRuns(Add(f, runs[i][1], runs[i][2]), i + 1)
Names(i) == {runs[i][1]} \cup {runs[i][2][j][1] : j \in 1..Len(runs[i][2])}
Make == /\ pos = 0 /\ pos' = 1 /\ UNCHANGED <<runs, wrap>>
        /\ IF wrap THEN found' = AddRuns(<<>>, 1) /\ used' = UNION {Names(i) : i \in 1..Len(runs)} ELSE UNCHANGED <<found, used>>
Visit == /\ pos > 0 /\ pos <= Len(runs) /\ pos' = pos + 1 /\ UNCHANGED <<runs, wrap>>
         /\ found' = Add(found, runs[pos][1], runs[pos][2]) /\ used' = used \cup Names(pos)
Next == Make \/ Visit
Spec == Init /\ [][Next]_vars
Wanted == UNION {{<<runs[i][1], runs[i][2][j][1], runs[i][2][j][2]>> : j \in 1..Len(runs[i][2])} : i \in 1..Len(runs)}
Over == pos > Len(runs)
Once == Cardinality({found[i] : i \in 1..Len(found)}) = Len(found)
All == Over => {found[i] : i \in 1..Len(found)} = Wanted /\ used = UNION {Names(i) : i \in 1..Len(runs)}
Real == {found[i] : i \in 1..Len(found)} \subseteq Wanted
=============================================================================
