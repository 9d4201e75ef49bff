------------------------------ MODULE SpscImpl ------------------------------
(* The ring as implemented: two indices, each side's cached copy of the      *)
(* other index, and the element copy as separate steps, interleaved freely.  *)
(* Checked: it never loses, repeats, reorders or overwrites (it implements   *)
(* SpscFifo's counters), and its results are those SpscFifo allows.          *)
(* CommitReloads = FALSE is the code before the repair of commit_read, where *)
(* size()+commit_read leaves the reader's cache behind its index: TLC then   *)
(* finds the stale read (MCSpscImplStale.cfg expects the violation).         *)
EXTENDS Naturals, FiniteSets
CONSTANTS Ring, CommitReloads
M == 2 * Ring                       \* values are numbered modulo M
Slots == 0 .. Ring - 1
Vals == 0 .. M - 1
VARIABLES wi, ri,      \* shared indices
          wc, rc,      \* writer's copy of ri, reader's copy of wi
          buf,         \* slot contents
          nw, nr,      \* abstract counters (mod M): values published / consumed
          wpc, wn, wk, \* writer: control, request, progress
          rpc, rn, rk, \* reader
          bad          \* an observation contradicting SpscFifo
vars == <<wi, ri, wc, rc, buf, nw, nr, wpc, wn, wk, rpc, rn, rk, bad>>
Dist(a, b) == (b + Ring - a) % Ring            \* elements from a up to b
SpaceOf(r) == Ring - 1 - Dist(r, wi)           \* writer's view of the space
Occ == (nw + M - nr) % M
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ wi = 0 /\ ri = 0 /\ wc = 0 /\ rc = 0 /\ buf = [s \in Slots |-> 0] /\ nw = 0 /\ nr = 0
        /\ wpc = "idle" /\ wn = 0 /\ wk = 0 /\ rpc = "idle" /\ rn = 0 /\ rk = 0 /\ bad = FALSE
rvars == <<ri, rc, nr, rpc, rn, rk>>
wvars == <<wi, wc, buf, nw, wpc, wn, wk>>

\* ---- writer
WTry   == /\ wpc = "idle" /\ wn' = 1 /\ wk' = 0
          /\ wpc' = IF (wi + 1) % Ring = wc THEN "tryload" ELSE "copy"
          /\ UNCHANGED <<wi, wc, buf, nw, rvars, bad>>
WTryLoad == /\ wpc = "tryload" /\ wc' = ri
            /\ wpc' = IF (wi + 1) % Ring = ri THEN "idle" ELSE "copy"
            /\ bad' = (bad \/ ((wi + 1) % Ring = ri /\ Occ # Ring - 1))   \* failed although not full
            /\ UNCHANGED <<wi, buf, nw, wn, wk, rvars>>
WBatch == /\ wpc = "idle" /\ wc' = ri /\ wk' = 0
          /\ \E n \in 1 .. Ring : wn' = Min(n, SpaceOf(ri)) /\ bad' = (bad \/ SpaceOf(ri) # Ring - 1 - Occ)
          /\ wpc' = IF SpaceOf(ri) = 0 THEN "idle" ELSE "copy"
          /\ UNCHANGED <<wi, buf, nw, rvars>>
WCopy  == /\ wpc = "copy" /\ wk < wn
          /\ buf' = [buf EXCEPT ![(wi + wk) % Ring] = (nw + wk) % M]
          /\ bad' = (bad \/ Dist(ri, (wi + wk) % Ring) < Dist(ri, wi))    \* overwrites an unread slot
          /\ wk' = wk + 1 /\ UNCHANGED <<wi, wc, nw, wpc, wn, rvars>>
WPub   == /\ wpc = "copy" /\ wk = wn /\ wi' = (wi + wn) % Ring /\ nw' = (nw + wn) % M
          /\ wpc' = "idle" /\ wk' = 0 /\ wn' = 0 /\ UNCHANGED <<wc, buf, rvars, bad>>
\* ---- reader
RTry   == /\ rpc = "idle" /\ rn' = 1 /\ rk' = 0
          /\ rpc' = IF ri = rc THEN "tryload" ELSE "copy"
          /\ UNCHANGED <<ri, rc, nr, wvars, bad>>
RTryLoad == /\ rpc = "tryload" /\ rc' = wi
            /\ rpc' = IF ri = wi THEN "idle" ELSE "copy"
            /\ bad' = (bad \/ (ri = wi /\ Occ # 0))
            /\ UNCHANGED <<ri, nr, rn, rk, wvars>>
RBatch == /\ rpc = "idle" /\ rc' = wi /\ rk' = 0
          /\ \E n \in 1 .. Ring : rn' = Min(n, Dist(ri, wi))
          /\ rpc' = IF ri = wi THEN "idle" ELSE "copy"
          /\ bad' = (bad \/ Dist(ri, wi) # Occ)
          /\ UNCHANGED <<ri, nr, wvars>>
RCopy  == /\ rpc = "copy" /\ rk < rn
          /\ bad' = (bad \/ buf[(ri + rk) % Ring] # (nr + rk) % M \/ rk >= Occ)
          /\ rk' = rk + 1 /\ UNCHANGED <<ri, rc, nr, rpc, rn, wvars>>
RPub   == /\ rpc = "copy" /\ rk = rn /\ ri' = (ri + rn) % Ring /\ nr' = (nr + rn) % M
          /\ rpc' = "idle" /\ rk' = 0 /\ rn' = 0 /\ UNCHANGED <<rc, wvars, bad>>
\* discard what size() reported without looking at it
RSize  == /\ rpc = "idle" /\ rn' = Dist(ri, wi) /\ rk' = 0 /\ rpc' = "commit" /\ UNCHANGED <<ri, rc, nr, wvars, bad>>
RCommit == /\ rpc = "commit"
           /\ rc' = IF CommitReloads THEN wi ELSE rc
           /\ rpc' = "commit2" /\ UNCHANGED <<ri, nr, rn, rk, wvars, bad>>
RCommit2 == /\ rpc = "commit2" /\ ri' = (ri + rn) % Ring /\ nr' = (nr + rn) % M /\ rpc' = "idle" /\ rn' = 0
            /\ UNCHANGED <<rc, rk, wvars, bad>>
Next == WTry \/ WTryLoad \/ WBatch \/ WCopy \/ WPub \/ RTry \/ RTryLoad \/ RBatch \/ RCopy \/ RPub \/ RSize \/ RCommit \/ RCommit2
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == wi \in Slots /\ ri \in Slots /\ wc \in Slots /\ rc \in Slots /\ nw \in Vals /\ nr \in Vals
NeverBad == ~bad
Counters == Occ = Dist(ri, wi) /\ Occ <= Ring - 1
\* the caches are conservative: neither side ever believes in room that is not there
CachesSafe == /\ (Ring - 1 - Dist(wc, wi)) <= Ring - 1 - Occ
              /\ rpc = "idle" => Dist(ri, rc) <= Occ
\* SpscFifo as abstraction: publishing and consuming are the only counter steps
Fifo == [][ /\ nw' # nw => (nr' = nr /\ (nw' + M - nw) % M <= Ring - 1 - Occ)
            /\ nr' # nr => (nw' = nw /\ (nr' + M - nr) % M <= Occ) ]_vars
=============================================================================
