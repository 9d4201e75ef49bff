------------------------------- MODULE Policy -------------------------------
(* The create/join contract of a task policy, and the kernel's rules about    *)
(* the objects (threads, semaphores) it is given: an object is used only at   *)
(* the address where it was made and before it is deleted; a stack stays      *)
(* until its thread is over.                                                  *)
(* tk[t]: the task's life. ob[o]: kind, owner, state of kernel object o.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
New(e) == [pol |-> e.pol, tk |-> <<>>, ob |-> <<>>, used |-> {}]
Put(f, k, v) == (k :> v) @@ f
Dom(f) == DOMAIN f
Known(s, t) == t \in Dom(s.tk)
Over(s, o) == s.ob[o].st \in {"exited", "killed", "deleted"}
Mine(s, t) == {o \in Dom(s.ob) : s.ob[o].t = t}
Ok(s, e) ==
  CASE e.e = "create" -> ~Known(s, e.t)
    [] e.e = "made" -> Known(s, e.t)
    [] e.e = "kfail" -> Known(s, e.t)
    [] e.e = "fb" -> /\ Known(s, e.t) /\ s.tk[e.t].st = "made" /\ ~s.tk[e.t].failed      \* exactly once
                     /\ e.th # 0 /\ e.th \notin s.used                                   \* on a task of its own
                     /\ s.pol # "desktop" => e.th \in Dom(s.ob) /\ s.ob[e.th].t = e.t
    [] e.e = "fe" -> Known(s, e.t) /\ s.tk[e.t].st = "run"
    [] e.e = "jb" -> Known(s, e.t)
    [] e.e = "je" -> /\ s.tk[e.t].st = "done" \/ (s.tk[e.t].failed /\ s.tk[e.t].st = "made")
                     /\ e.live = 0 /\ e.heap = 0                                         \* what the task used is released
                     /\ \A o \in Mine(s, e.t) :
                          /\ s.pol = "threadx" => s.ob[o].st = "deleted"
                          /\ s.pol = "freertos" /\ s.ob[o].k = "sem" => s.ob[o].st = "deleted"
                          /\ s.pol = "zephyr" /\ s.ob[o].k = "thread" => Over(s, o)
    [] e.e = "knew" -> e.over = 0 \/ (e.over \in Dom(s.ob) /\ (s.ob[e.over].k = "sem" \/ Over(s, e.over)))
    [] e.e = "kuse" -> e.o \in Dom(s.ob) /\ s.ob[e.o].st # "deleted" /\ s.ob[e.o].mem
    [] e.e = "kdel" -> s.pol = "threadx" /\ s.ob[e.o].k = "thread" => Over(s, e.o)
    [] e.e = "kexit" -> s.ob[e.o].st \in {"live", "deleted"}
    [] e.e = "kterm" -> s.ob[e.o].t \in Dom(s.tk) /\ s.tk[s.ob[e.o].t].st = "done"       \* never cuts the function short
    [] e.e = "kret" -> s.pol # "freertos"                                                \* a FreeRTOS task never returns
    [] e.e = "kfree" -> IF s.ob[e.o].k = "sem" /\ e.w = "obj" THEN s.pol = "zephyr" ELSE Over(s, e.o)
    [] e.e = "end" -> /\ ~e.wild /\ e.heap = 0
                      /\ \A t \in Dom(s.tk) : s.tk[t].joined /\ (s.tk[t].st = "done" \/ s.tk[t].failed)
                      /\ \A o \in Dom(s.ob) : s.ob[o].k # "sem" => Over(s, o)
    [] OTHER -> FALSE                                                                    \* lost, race, crash, stuck
Step(s, e) ==
  CASE e.e = "create" -> [s EXCEPT !.tk = Put(@, e.t, [st |-> "made", failed |-> FALSE, joined |-> FALSE])]
    [] e.e = "kfail" -> [s EXCEPT !.tk[e.t].failed = TRUE]
    [] e.e = "fb" -> [s EXCEPT !.tk[e.t].st = "run", !.used = @ \cup (IF s.pol = "desktop" THEN {} ELSE {e.th})]
    [] e.e = "fe" -> [s EXCEPT !.tk[e.t].st = "done"]
    [] e.e = "je" -> [s EXCEPT !.tk[e.t].joined = TRUE]
    [] e.e = "knew" -> LET p == IF e.over # 0 THEN [s EXCEPT !.ob[e.over].st = "deleted"] ELSE s IN [p EXCEPT !.ob = Put(@, e.o, [k |-> e.k, t |-> e.t, st |-> "live", mem |-> TRUE])]
    [] e.e = "kdel" -> [s EXCEPT !.ob[e.o].st = "deleted"]
    [] e.e = "kexit" -> [s EXCEPT !.ob[e.o].st = IF @ = "live" THEN "exited" ELSE @]
    [] e.e = "kterm" -> [s EXCEPT !.ob[e.o].st = IF @ = "live" THEN "killed" ELSE @]
    [] e.e = "kfree" -> IF e.w = "obj" THEN [s EXCEPT !.ob[e.o].mem = FALSE] ELSE s
    [] OTHER -> s
=============================================================================
