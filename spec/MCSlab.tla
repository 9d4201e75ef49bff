------------------------------- MODULE MCSlab -------------------------------
(* The pool as built: a queue of free slots, takes from one end, releases at  *)
(* the other, several releasing tasks. A release reads the tail, writes the   *)
(* slot there and advances the tail; Locked makes those steps exclusive.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cap, Rel, Locked, MaxTakes
VARIABLES ring, head, tail, held, pc, my, at, lock, n
vars == <<ring, head, tail, held, pc, my, at, lock, n>>
M == Cap + 1
Init == /\ ring = [i \in 0..Cap |-> IF i < Cap THEN i ELSE 0] /\ head = 0 /\ tail = Cap
        /\ held = {} /\ pc = [r \in Rel |-> "idle"] /\ my = [r \in Rel |-> 0] /\ at = [r \in Rel |-> 0] /\ lock = 0 /\ n = 0
Take == /\ head # tail /\ n < MaxTakes /\ n' = n + 1
        /\ held' = held \cup {<<n, ring[head]>>} /\ head' = (head + 1) % M /\ UNCHANGED <<ring, tail, pc, my, at, lock>>
Begin(r) == /\ pc[r] = "idle" /\ \E h \in held : held' = held \ {h} /\ my' = [my EXCEPT ![r] = h[2]]
            /\ pc' = [pc EXCEPT ![r] = "load"] /\ UNCHANGED <<ring, head, tail, at, lock, n>>
Load(r) == /\ pc[r] = "load" /\ (Locked => lock = 0) /\ lock' = (IF Locked THEN r ELSE 0)
           /\ at' = [at EXCEPT ![r] = tail] /\ pc' = [pc EXCEPT ![r] = "store"] /\ UNCHANGED <<ring, head, tail, held, my, n>>
Store(r) == /\ pc[r] = "store" /\ ring' = [ring EXCEPT ![at[r]] = my[r]] /\ pc' = [pc EXCEPT ![r] = "adv"] /\ UNCHANGED <<head, tail, held, my, at, lock, n>>
Adv(r) == /\ pc[r] = "adv" /\ tail' = (at[r] + 1) % M /\ lock' = 0 /\ pc' = [pc EXCEPT ![r] = "idle"] /\ UNCHANGED <<ring, head, held, my, at, n>>
Next == Take \/ \E r \in Rel : Begin(r) \/ Load(r) \/ Store(r) \/ Adv(r)
Spec == Init /\ [][Next]_vars
Sz == (tail - head + M) % M
OneHolder == \A a, b \in held : a # b => a[2] # b[2]
Conserved == (\A r \in Rel : pc[r] = "idle") => Sz + Cardinality(held) = Cap
=============================================================================
