------------------------------ MODULE GmskImpl ------------------------------
(* How the burst receiver keeps Gmsk's promise: a detector that may fire early *)
(* or late in the alternation, a bounded search for the sync word, header,     *)
(* payload, and a reset after every way out; fed in pieces of any size.        *)
(* Window, Reset and Flow are what the variants get wrong.                     *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS P, S, MaxPay, Frames, Early, Window, ResetAll, Carry
VARIABLES frames, air, pos, st, cnt, seen, got, hdr, reports, fed
vars == <<frames, air, pos, st, cnt, seen, got, hdr, reports, fed>>
Idle == 99
Pre == [i \in 1..P |-> i % 2]
Sync(ok) == [i \in 1..S |-> IF i = 2 /\ ~ok THEN 19 ELSE 10 + i]
Gap == [i \in 1..(P + 2 * S) |-> Idle]
Kind == [sync : BOOLEAN, n : 0..(MaxPay + 1), b : {20}]
Body(f, k) == <<30 + f.n>> \o [i \in 1..f.n |-> 40 + 10 * k + i]
OnAir(f, k) == Pre \o Sync(f.sync) \o Body(f, k) \o Gap
Good(f) == f.n \in 1..MaxPay
Expected == FlattenSeq([k \in 1..Len(frames) |->
   LET f == frames[k] IN
   <<<<"preamble", k>>>> \o (IF ~f.sync THEN <<>> ELSE <<<<"sync", k>>, <<"header", f.n>>>> \o
      (IF Good(f) THEN <<<<"payload", [i \in 1..f.n |-> 40 + 10 * k + i]>>>> ELSE <<>>))])
Init == /\ frames \in UNION {[1..n -> Kind] : n \in 1..Frames}
        /\ air = FlattenSeq([k \in 1..Len(frames) |-> OnAir(frames[k], k)])
        /\ pos = 0 /\ st = "detect" /\ cnt = 0 /\ seen = <<>> /\ got = 0 /\ hdr = 0 /\ reports = <<>> /\ fed = 0
Feed == /\ fed < Len(air) /\ fed' \in (fed + 1)..Min({Len(air), fed + 3}) /\ pos = fed
        /\ UNCHANGED <<frames, air, pos, st, cnt, seen, got, hdr, reports>>
Cur == air[pos + 1]
More == pos < fed
Say(x) == reports' = Append(reports, x)
Back == /\ st' = "detect" /\ seen' = <<>> /\ cnt' = (IF ResetAll THEN 0 ELSE cnt)
Keep(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
(* the detector: at the last Early symbols of the alternation or the one just past its end *)
Detect == /\ More /\ st = "detect" /\ pos' = pos + 1
          /\ LET t == Append(seen, Cur)
                 full == \E n \in (P - Early)..P : n <= Len(t) /\ (\A i \in 1..n : t[Len(t) - n + i] = Pre[i]) IN
             IF full
             THEN \/ /\ st' = "sync" /\ cnt' = (IF ResetAll THEN 0 ELSE cnt) /\ seen' = (IF Carry THEN t ELSE <<>>) /\ got' = got + 1 /\ Say(<<"preamble", got + 1>>)
                  \/ /\ pos + 2 <= Len(air) /\ air[pos + 2] \in {0, 1}       \* wait: the alternation goes on
                     /\ seen' = Keep(t, P) /\ UNCHANGED <<st, cnt, got, reports>>
             ELSE seen' = Keep(t, P) /\ UNCHANGED <<st, cnt, got, reports>>
          /\ UNCHANGED <<frames, air, hdr, fed>>
Search == /\ More /\ st = "sync" /\ pos' = pos + 1
          /\ LET t == Append(seen, Cur) IN
             IF Len(t) >= S /\ SubSeq(t, Len(t) - S + 1, Len(t)) = Sync(TRUE)
             THEN st' = "header" /\ Say(<<"sync", got>>) /\ seen' = <<>> /\ cnt' = (IF ResetAll THEN 0 ELSE cnt)
             ELSE IF Len(t) >= Window THEN Back /\ UNCHANGED reports
             ELSE seen' = t /\ UNCHANGED <<st, cnt, reports>>
          /\ UNCHANGED <<frames, air, got, hdr, fed>>
Header == /\ More /\ st = "header" /\ pos' = pos + 1 /\ Say(<<"header", Cur - 30>>) /\ hdr' = Cur - 30
          /\ IF hdr' \in 1..MaxPay THEN st' = "payload" /\ seen' = <<>> /\ UNCHANGED cnt ELSE Back
          /\ UNCHANGED <<frames, air, got, fed>>
Payload == /\ More /\ st = "payload" /\ pos' = pos + 1
           /\ LET t == Append(seen, Cur) c == cnt + 1 IN
              IF c = hdr THEN Say(<<"payload", t>>) /\ Back ELSE IF c > hdr THEN Back /\ UNCHANGED reports
              ELSE seen' = t /\ cnt' = c /\ UNCHANGED <<st, reports>>
           /\ UNCHANGED <<frames, air, got, hdr, fed>>
Next == Feed \/ Detect \/ Search \/ Header \/ Payload
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Bounds == Len(seen) <= P + 2 * S /\ (st = "payload" => hdr <= MaxPay)
InOrder == IsPrefix(reports, Expected)
AllHeard == (pos = Len(air)) => reports = Expected
=============================================================================
