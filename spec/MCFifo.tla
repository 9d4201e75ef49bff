------------------------------- MODULE MCFifo -------------------------------
(* Finite instance of SpscFifo: positions matter only modulo the ring size,  *)
(* so the VIEW makes it finite.  Its labelled state graph is turned into     *)
(* test scripts covering every edge (bin/scripts.py).                        *)
EXTENDS SpscFifo
CONSTANT Cap
View == <<rd % (Cap + 1), wr - rd, win>>
Vm == 1000003
Do(s, op, n, k) == /\ Apply(s, op, n, k, IF op \in {"get", "bget", "look"} /\ k > 0 THEN << <<rd % Vm, k>> >> ELSE <<>>, Room(s), Vm)
                   /\ UNCHANGED pend
w_put_0 == TRUE /\ Do("w", "put", 0, 0)
w_put_1 == TRUE /\ Do("w", "put", 1, MinI(1, Space))
w_put_2 == TRUE /\ Do("w", "put", 2, MinI(2, Space))
w_put_3 == TRUE /\ Do("w", "put", 3, MinI(3, Space))
w_put_5 == TRUE /\ Do("w", "put", 5, MinI(5, Space))
w_bput  == TRUE /\ Do("w", "bput", 1, 1)
w_window == TRUE /\ Do("w", "window", 0, Space)
w_commit_0 == win["w"] > 0 /\ Do("w", "commit", 0, 0)
w_commit_1 == TRUE /\ Do("w", "commit", 1, 1)
w_commit_2 == TRUE /\ Do("w", "commit", 2, 2)
w_commit_3 == TRUE /\ Do("w", "commit", 3, 3)
w_space == TRUE /\ Do("w", "space", 0, Space)
w_size == TRUE /\ Do("w", "size", 0, Avail)
r_get_0 == TRUE /\ Do("r", "get", 0, 0)
r_get_1 == TRUE /\ Do("r", "get", 1, MinI(1, Avail))
r_get_2 == TRUE /\ Do("r", "get", 2, MinI(2, Avail))
r_get_3 == TRUE /\ Do("r", "get", 3, MinI(3, Avail))
r_get_5 == TRUE /\ Do("r", "get", 5, MinI(5, Avail))
r_bget  == TRUE /\ Do("r", "bget", 1, 1)
r_window == TRUE /\ Do("r", "window", 0, Avail)
r_look == win["r"] > 0 /\ Do("r", "look", win["r"], win["r"])
r_commit_0 == win["r"] > 0 /\ Do("r", "commit", 0, 0)
r_commit_1 == TRUE /\ Do("r", "commit", 1, 1)
r_commit_2 == TRUE /\ Do("r", "commit", 2, 2)
r_commit_3 == TRUE /\ Do("r", "commit", 3, 3)
r_size == TRUE /\ Do("r", "size", 0, Avail)
r_space == TRUE /\ Do("r", "space", 0, Space)
MCNext == w_put_0 \/ w_put_1 \/ w_put_2 \/ w_put_3 \/ w_put_5 \/ w_bput \/ w_window \/ w_commit_0 \/ w_commit_1 \/ w_commit_2 \/ w_commit_3
          \/ w_space \/ w_size \/ r_get_0 \/ r_get_1 \/ r_get_2 \/ r_get_3 \/ r_get_5 \/ r_bget \/ r_window \/ r_look
          \/ r_commit_0 \/ r_commit_1 \/ r_commit_2 \/ r_commit_3 \/ r_size \/ r_space
MCSpec == FInit(Cap) /\ [][MCNext]_fvars
=============================================================================
