------------------------------ MODULE AudioImpl ------------------------------
(* The audio file source as written: packets go through a decoder that holds  *)
(* back up to Hold frames and a resampler that keeps what found no room (and  *)
(* Delay samples of its own) until it is flushed. Every call emits an event   *)
(* that AudioFile must allow. NoFlush: the end is announced without emptying  *)
(* decoder and resampler. NoOnce: announced at every call after the end.      *)
(* FailAt: reading that packet fails (99: none); FailAsEnd: taken for the end. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Frames, Size, Hold, Delay, MaxRoom, MaxCalls, NoFlush, NoOnce, Repeat, MaxOut, FailAt, FailAsEnd
VARIABLES err, s, read, dec, swr, out, eof, flushed, fin, told, pc, room, n0, calls, ok
vars == <<err, s, read, dec, swr, out, eof, flushed, fin, told, pc, room, n0, calls, ok>>
A == INSTANCE AudioFile
Max(a, b) == IF a > b THEN a ELSE b
Total == IF FailAt = 99 THEN Frames * Size ELSE Max(0, Max(0, FailAt - Hold) * Size - Delay)
Init == /\ s = A!Step(A!New([total |-> IF Repeat /\ FailAt = 99 THEN -1 ELSE Total, valid |-> TRUE, repeat |-> Repeat, cb |-> TRUE, err |-> FALSE, fault |-> FailAt # 99]), [e |-> "up", ok |-> TRUE])
        /\ err = FALSE /\ read = 0 /\ dec = <<>> /\ swr = <<>> /\ out = 0 /\ eof = FALSE /\ flushed = FALSE /\ fin = FALSE /\ told = 0 /\ pc = "idle" /\ room = 0 /\ n0 = 0 /\ calls = 0 /\ ok = TRUE
FrameOf(i) == [j \in 1..Size |-> i * Size + j - 1]     \* sample numbers, counted over all passes
Begin == /\ pc = "idle" /\ calls < MaxCalls /\ calls' = calls + 1 /\ (Repeat => out < MaxOut)
         /\ \E r \in 0..MaxRoom : room' = r /\ pc' = (IF r = 0 THEN "done" ELSE "swr")
         /\ n0' = 0 /\ UNCHANGED <<s, read, dec, swr, out, eof, flushed, fin, told, ok>> /\ err' = FALSE
Ready == IF flushed THEN Len(swr) ELSE IF Len(swr) > Delay THEN Len(swr) - Delay ELSE 0
Min(a, b) == IF a < b THEN a ELSE b
(* take from the resampler; what comes out must be the next samples *)
Take == /\ pc = "swr" /\ ~fin
        /\ LET k == Min(Ready, room - n0) IN
             /\ ok' = (ok /\ \A j \in 1..k : swr[j] = out + j - 1)
             /\ out' = out + k /\ swr' = SubSeq(swr, k + 1, Len(swr)) /\ n0' = n0 + k
             /\ IF n0 + k = room THEN pc' = "done" /\ fin' = fin ELSE IF flushed THEN fin' = TRUE /\ pc' = "done" ELSE pc' = "next" /\ fin' = fin
        /\ UNCHANGED <<err, s, read, dec, eof, flushed, told, room, calls>>
Stay == /\ pc = "swr" /\ fin /\ pc' = "done" /\ UNCHANGED <<err, s, read, dec, swr, out, eof, flushed, fin, told, room, n0, calls, ok>>
(* next frame: the decoder gives one once it holds more than Hold, or when draining *)
Limit == IF Repeat THEN 1000 ELSE Frames
Next1 == /\ pc = "next"
         /\ IF Len(dec) > (IF eof THEN 0 ELSE Hold) THEN swr' = swr \o FrameOf(Head(dec)) /\ dec' = Tail(dec) /\ pc' = "swr" /\ UNCHANGED <<err, read, eof, flushed, fin>>
            ELSE IF read = FailAt /\ ~FailAsEnd THEN err' = TRUE /\ pc' = "done" /\ UNCHANGED <<read, dec, swr, eof, flushed, fin>>
            ELSE IF read < Limit /\ read # FailAt THEN read' = read + 1 /\ dec' = Append(dec, read) /\ UNCHANGED <<err, swr, eof, flushed, fin, pc>>
            ELSE IF NoFlush THEN fin' = TRUE /\ pc' = "done" /\ UNCHANGED <<err, read, dec, swr, eof, flushed>>
            ELSE IF ~eof THEN eof' = TRUE /\ UNCHANGED <<err, read, dec, swr, flushed, fin, pc>>
            ELSE flushed' = TRUE /\ pc' = "swr" /\ UNCHANGED <<err, read, dec, swr, eof, fin>>
         /\ UNCHANGED <<s, out, told, room, n0, calls, ok>>
Done == /\ pc = "done"
        /\ LET c == IF fin /\ room > 0 /\ (told = 0 \/ NoOnce) THEN 1 ELSE 0
               e == [e |-> "ce", sp |-> room, n |-> n0, good |-> n0, res |-> IF room = 0 THEN "NESP" ELSE IF err THEN "TERM_IO" ELSE "OK", cb |-> c] IN
             ok' = (ok /\ A!Ok(s, e)) /\ s' = A!Step(s, e) /\ told' = told + c
        /\ pc' = "idle" /\ UNCHANGED <<err, read, dec, swr, out, eof, flushed, fin, room, n0, calls>>
Next == Begin \/ Take \/ Stay \/ Next1 \/ Done
Spec == Init /\ [][Next]_vars
Allowed == ok
Whole == (fin /\ ~Repeat /\ FailAt = 99) => out = Total
=============================================================================
