------------------------------ MODULE FileImpl ------------------------------
(* The file sink's algorithm on a buffered stream whose writes to the device  *)
(* may fail after any part: what the file holds once the sink is destroyed.   *)
(* Flush: the buffer is flushed before samples are consumed.                  *)
(* Sticky: nothing is written any more after a failed write.                  *)
EXTENDS Integers, Sequences
CONSTANTS N, Flush, Sticky
VARIABLES q, used, buf, file, err, fatal, st
vars == <<q, used, buf, file, err, fatal, st>>
\* q: samples waiting in the channel; used: consumed; buf, file: sequences of sample numbers; err: stream error flag
Init == q = <<>> /\ used = 0 /\ buf = <<>> /\ file = <<>> /\ err = FALSE /\ fatal = FALSE /\ st = "live"
Fed == used + Len(q)
Feed == st = "live" /\ Fed < N /\ q' = Append(q, Fed + 1) /\ UNCHANGED <<used, buf, file, err, fatal, st>>
Keep(s, k) == SubSeq(s, k + 1, Len(s))
(* try to write w: k of them reach the device; ok iff all did *)
Call ==
  /\ st = "live" /\ Len(q) > 0
  /\ IF err /\ Sticky THEN fatal' = TRUE /\ UNCHANGED <<q, used, buf, file, err, st>>
     ELSE \/ /\ ~Flush /\ buf' = buf \o q /\ used' = used + Len(q) /\ q' = <<>>          \* all fits the buffer
             /\ UNCHANGED <<file, err, fatal, st>>
          \/ LET w == buf \o q IN \E k \in 0..Len(w) :
             /\ file' = file \o SubSeq(w, 1, k)
             /\ IF k = Len(w) THEN buf' = <<>> /\ used' = used + Len(q) /\ q' = <<>> /\ UNCHANGED <<err, fatal>>
                ELSE err' = TRUE /\ fatal' = TRUE /\ UNCHANGED <<used, q>> /\ buf' \in {<<>>, Keep(w, k)}  \* the stream keeps or drops the rest
             /\ UNCHANGED st
Destroy ==
  /\ st = "live" /\ st' = "gone"
  /\ \E k \in 0..Len(buf) : file' = file \o SubSeq(buf, 1, k)
  /\ buf' = <<>> /\ UNCHANGED <<q, used, err, fatal>>
Next == Feed \/ Call \/ Destroy
Spec == Init /\ [][Next]_vars
InOrder == \A i \in 1..Len(file) : file[i] = i
Lossless == st = "gone" => Len(file) >= used
Exact == st = "gone" /\ ~fatal => Len(file) = used
=============================================================================
