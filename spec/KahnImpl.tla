------------------------------ MODULE KahnImpl ------------------------------
(* Bounded-channel execution of a small network (two nested diamonds) under   *)
(* an arbitrary scheduler: every step runs one block, which moves any number  *)
(* of sample tuples its channels allow. The sinks only ever see a prefix of   *)
(* the streams Kahn defines, and execution ends only when everything the      *)
(* sources had was delivered (no deadlock, nothing lost).                     *)
EXTENDS Kahn, TLC
CONSTANTS Cap, N, Bug
Net == << [k |-> "src", a |-> 0, in |-> <<>>], [k |-> "src", a |-> 1, in |-> <<>>],
          [k |-> "same", a |-> 0, in |-> <<1>>],               \* fan-out of 1
          [k |-> "gain", a |-> 2, in |-> <<3>>],
          [k |-> "add", a |-> 0, in |-> <<3, 4, 2>>],
          [k |-> "dec", a |-> 2, in |-> <<5>>] >>
(* edges: <<producer, consumer>>; node 7, 8 are sinks of 5 and 6 *)
Edges == {<<1, 3>>, <<3, 4>>, <<3, 5>>, <<4, 5>>, <<2, 5>>, <<5, 6>>, <<5, 7>>, <<6, 8>>}
VARIABLES ch, cnt, ph, outp
vars == <<ch, cnt, ph, outp>>
Init == ch = [e \in Edges |-> <<>>] /\ cnt = [x \in 1..6 |-> 0] /\ ph = 0 /\ outp = [x \in {7, 8} |-> <<>>]
Ins(x) == {e \in Edges : e[2] = x}
Outs(x) == {e \in Edges : e[1] = x}
Put(c, x, v) == [e \in Edges |-> IF e[1] = x THEN Append(c[e], v) ELSE c[e]]
Pop(c, x) == [e \in Edges |-> IF e[2] = x THEN Tail(c[e]) ELSE c[e]]
Room(x) == \A e \in Outs(x) : Len(ch[e]) < Cap
Have(x) == \A e \in Ins(x) : ch[e] # <<>>
Src(x) == x \in {1, 2} /\ cnt[x] < N /\ Room(x) /\ ch' = Put(ch, x, SrcVal(Net[x].a, cnt[x] + 1)) /\ cnt' = [cnt EXCEPT ![x] = @ + 1] /\ UNCHANGED <<ph, outp>>
Fire(x) == x \in {3, 4, 5} /\ Have(x) /\ (Room(x) \/ Bug = "nospace")
  /\ LET v == CASE x = 3 -> Head(ch[<<1, 3>>]) [] x = 4 -> 2 * Head(ch[<<3, 4>>]) [] x = 5 -> Head(ch[<<3, 5>>]) + Head(ch[<<4, 5>>]) + Head(ch[<<2, 5>>])
         c1 == Pop(ch, x)
     IN ch' = (IF Room(x) THEN Put(c1, x, v) ELSE c1)
  /\ UNCHANGED <<cnt, ph, outp>>
DecS == Have(6) /\ (ph = 0 => Room(6)) /\ ch' = (IF ph = 0 THEN Put(Pop(ch, 6), 6, Head(ch[<<5, 6>>])) ELSE Pop(ch, 6)) /\ ph' = 1 - ph /\ UNCHANGED <<cnt, outp>>
Sink(x) == x \in {7, 8} /\ \E e \in Ins(x) : ch[e] # <<>> /\ outp' = [outp EXCEPT ![x] = Append(@, Head(ch[e]))] /\ ch' = [ch EXCEPT ![e] = Tail(@)] /\ UNCHANGED <<cnt, ph>>
Finished == Len(outp[7]) = N /\ Len(outp[8]) = (N + 1) \div 2 /\ (\A e \in Edges : ch[e] = <<>>) /\ UNCHANGED vars
Next == (\E x \in 1..8 : Src(x) \/ Fire(x) \/ Sink(x)) \/ DecS \/ Finished
Spec == Init /\ [][Next]_vars
Prefix == /\ \A i \in 1..Len(outp[7]) : outp[7][i] = Val(Net, 5, i)
          /\ \A i \in 1..Len(outp[8]) : outp[8][i] = Val(Net, 6, i)
Bounded == \A e \in Edges : Len(ch[e]) <= Cap
=============================================================================
