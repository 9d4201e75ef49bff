-------------------------------- MODULE Slab --------------------------------
(* Pools of equal buffers. held: handle -> the buffer it owns. Releases may   *)
(* run concurrently with takes: a release that was called but has not         *)
(* returned may or may not have taken effect yet (pend); it has taken effect  *)
(* as soon as its buffer was handed out again.                                *)
EXTENDS Integers, Sequences, FiniteSets
New(e) == [cap |-> e.cap, sz |-> e.sz, held |-> <<>>, pend |-> {}, done |-> {}, full |-> FALSE, taking |-> 0]
Held(s, k) == {i \in DOMAIN s.held : s.held[i].sl = k}
Overlap(a, off, sz) == a.off < off + sz /\ off < a.off + sz
Drop(f, S) == [i \in DOMAIN f \ S |-> f[i]]
(* handles whose buffer collides with the one just handed out *)
Clash(s, e) == {i \in Held(s, e.sl) : s.held[i].slot = e.slot \/ Overlap(s.held[i], e.off, s.sz[e.sl])}
Ok(s, e) ==
  CASE e.e = "avail" -> /\ e.cap = s.cap[e.sl] /\ e.sz = s.sz[e.sl]
                        /\ s.pend = {} => e.n = s.cap[e.sl] - Cardinality(Held(s, e.sl))
    [] e.e = "takec" -> s.taking = 0
    [] e.e = "take" ->
         /\ s.taking = e.sl
         /\ IF e.ok THEN /\ e.id \notin DOMAIN s.held
                         /\ e.slot \in 0..(s.cap[e.sl] - 1) /\ e.len = s.sz[e.sl]
                         /\ Clash(s, e) \subseteq s.pend              \* one holder at a time
                         /\ Cardinality(Held(s, e.sl) \ Clash(s, e)) < s.cap[e.sl]
            ELSE s.full                                               \* error only when exhausted
    [] e.e = "relc" -> e.id \in DOMAIN s.held /\ e.id \notin s.pend /\ e.good
    [] e.e = "rel" -> e.id \in s.pend \/ e.id \in s.done
    [] e.e = "end" -> s.pend = {} /\ s.taking = 0
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.e = "takec" -> [s EXCEPT !.taking = e.sl, !.full = Cardinality(Held(s, e.sl)) = s.cap[e.sl]]
    [] e.e = "take" -> IF ~e.ok THEN [s EXCEPT !.taking = 0]
         ELSE LET c == Clash(s, e) h == Drop(s.held, c) IN
              [s EXCEPT !.taking = 0, !.pend = @ \ c, !.done = @ \cup c,
                        !.held = [i \in DOMAIN h \cup {e.id} |-> IF i = e.id THEN [sl |-> e.sl, slot |-> e.slot, off |-> e.off] ELSE h[i]]]
    [] e.e = "relc" -> [s EXCEPT !.pend = @ \cup {e.id}]
    [] e.e = "rel" -> [s EXCEPT !.pend = @ \ {e.id}, !.done = @ \ {e.id}, !.held = Drop(@, {e.id})]
    [] OTHER -> s
=============================================================================
