------------------------------ MODULE SpscFifo ------------------------------
(* The channel as its two users see it: one writer side "w", one reader side *)
(* "r".  The i-th value ever written is i, so the contents are determined by *)
(* the two counters: the unread values are rd, rd+1, ..., wr-1.              *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES cap,   \* usable capacity
          wr,    \* values published so far
          rd,    \* values consumed so far
          win,   \* win[s]: how many elements side s may still commit from its last window
          pend   \* pend[s]: operation in progress on side s
fvars == <<cap, wr, rd, win, pend>>
Sides == {"w", "r"}
Idle  == [op |-> "idle", n |-> 0, k |-> 0, v |-> <<>>, lo |-> 0, lin |-> TRUE]
MinI(a, b) == IF a < b THEN a ELSE b
Avail == wr - rd
Space == cap - Avail
Room(s) == IF s = "w" THEN Space ELSE Avail   \* what side s can still do

FInit(c) == cap = c /\ wr = 0 /\ rd = 0 /\ win = [s \in Sides |-> 0] /\ pend = [s \in Sides |-> Idle]

(* Effect of one operation at its linearization point. lo is the side's room *)
(* when the call began: room only grows during a call because only the other *)
(* side moves.  vm is the modulus with which values are observable.          *)
Apply(s, op, n, k, v, lo, vm) ==
  LET moved == \/ op \in {"put", "get"}   \* non-blocking single or batch transfer
               \/ op \in {"bput", "bget"} \* blocking single transfer
               \/ op = "commit"
      \* observed values are logged as maximal runs <<first, length>> of consecutive values
      content(c) == IF c = 0 THEN <<>> ELSE << <<rd % vm, c>> >>
  IN
  /\ CASE op \in {"put", "get"}   -> k >= MinI(n, lo) /\ k <= MinI(n, Room(s))
       [] op \in {"bput", "bget"} -> k = 1 /\ Room(s) >= 1
       [] op = "window"           -> k = Room(s)
       [] op = "commit"           -> k = n /\ n <= win[s]
       [] op = "size"             -> k = Avail
       [] op = "space"            -> k = Space
       [] op = "empty"            -> k = (IF Avail = 0 THEN 1 ELSE 0)
       [] op = "look"             -> k <= win["r"]                 \* contents behind the read window
       [] op = "scribble"         -> k <= win["w"]                 \* garbage into the write window, not committed
       [] OTHER                   -> FALSE
  /\ op \in {"put", "bput"} => s = "w"
  /\ op \in {"get", "bget", "look"} => s = "r"
  /\ v = (IF op \in {"get", "bget", "look"} THEN content(k) ELSE <<>>)
  /\ wr' = IF s = "w" /\ moved THEN wr + k ELSE wr
  /\ rd' = IF s = "r" /\ moved THEN rd + k ELSE rd
  /\ win' = [win EXCEPT ![s] = CASE op = "window" -> k
                                 [] op = "size" /\ s = "r" -> k    \* a reader may commit what size() reported
                                 [] op = "commit" -> @ - n
                                 [] op \in {"put", "bput", "get", "bget"} -> 0
                                 [] OTHER -> @]
  /\ cap' = cap

Call(s, op, n, k, v) ==
  /\ pend[s].op = "idle"
  /\ pend' = [pend EXCEPT ![s] = [op |-> op, n |-> n, k |-> k, v |-> v, lo |-> Room(s), lin |-> FALSE]]
  /\ UNCHANGED <<cap, wr, rd, win>>
Lin(s, vm) ==
  /\ pend[s].op # "idle" /\ ~pend[s].lin
  /\ Apply(s, pend[s].op, pend[s].n, pend[s].k, pend[s].v, pend[s].lo, vm)
  /\ pend' = [pend EXCEPT ![s].lin = TRUE]
Ret(s) ==
  /\ pend[s].op # "idle" /\ pend[s].lin
  /\ pend' = [pend EXCEPT ![s] = Idle]
  /\ UNCHANGED <<cap, wr, rd, win>>
(* a call that nothing else overlaps *)
Atomic(s, op, n, k, v, vm) ==
  /\ \A t \in Sides : pend[t].op = "idle"
  /\ Apply(s, op, n, k, v, Room(s), vm)
  /\ UNCHANGED pend

Bounded == rd <= wr /\ wr - rd <= cap
WindowsSound == win["w"] <= Space /\ win["r"] <= Avail
FInv == Bounded /\ WindowsSound
=============================================================================
