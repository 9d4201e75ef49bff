------------------------------- MODULE MCLife -------------------------------
(* Lifecycle histories of a flowgraph as its user makes them; the labelled   *)
(* state graph becomes scripts that cover every pair of consecutive          *)
(* lifecycle operations in every phase (bin/scripts.py).                      *)
EXTENDS Naturals, Sequences
VARIABLES ph, h, asked
lvars == <<ph, h, asked>>
LInit == ph = "new" /\ h = <<"new", "new">> /\ asked = FALSE
Down == {"new", "stopped"}
Did(op, p) == ph' = p /\ h' = <<h[2], op>> /\ asked' = FALSE
run_tpb == ph \in Down \cup {"failed"} /\ Did("tpb", "up")
run_pool == ph \in Down \cup {"failed"} /\ Did("pool", "up")
run_for == ph \in Down \cup {"failed"} /\ Did("for", "stopped")
run_for_fatal == ph \in Down \cup {"failed"} /\ Did("forf", "stopped")
stop == TRUE /\ Did("stop", IF ph = "new" THEN "new" ELSE "stopped")
fail == ph = "up" /\ Did("fail", "failed")
wait == ph = "up" /\ h[2] # "wait" /\ Did("wait", "up")
ask == ~asked /\ asked' = TRUE /\ UNCHANGED <<ph, h>>
stats == ph = "stopped" /\ asked' = FALSE /\ h' = <<h[2], "stats">> /\ h[2] # "stats" /\ ph' = ph
LNext == run_tpb \/ run_pool \/ run_for \/ run_for_fatal \/ stop \/ fail \/ wait \/ ask \/ stats
LSpec == LInit /\ [][LNext]_lvars
=============================================================================
