-------------------------------- MODULE VMem --------------------------------
(* Operating-system resources behind channel buffers: descriptors, anonymous *)
(* files, reserved address regions and what is mapped into them (in pages).  *)
(* A channel (or a DoublyMappedAllocation) that reports double mapping owns  *)
(* one region mapped twice over the same file; every other one owns nothing. *)
EXTENDS Naturals, Integers, FiniteSets
VARIABLES fds,   \* open descriptor -> file
          size,  \* file -> pages
          segs,  \* mapped pieces [r, off, n, f, fo]; f = 0: reserved only
          own,   \* live object -> region (0: not double mapped)
          files  \* files created so far
vvars == <<fds, size, segs, own, files>>
Empty == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
VInit == fds = Empty /\ size = Empty /\ segs = {} /\ own = Empty /\ files = 0
\* pieces of S outside [off, off+n) of region r
Cut(S, r, off, n) ==
  {s \in S : s.r # r \/ s.off + s.n <= off \/ s.off >= off + n}
  \cup { [s EXCEPT !.n = off - s.off] : s \in {x \in S : x.r = r /\ x.off < off /\ x.off + x.n > off} }
  \cup { [s EXCEPT !.off = off + n, !.n = s.off + s.n - (off + n), !.fo = s.fo + (off + n - s.off)]
         : s \in {x \in S : x.r = r /\ x.off < off + n /\ x.off + x.n > off + n} }
Covered(r, off, n) == \A p \in off .. off + n - 1 : \E s \in segs : s.r = r /\ s.off <= p /\ p < s.off + s.n

Open(fd) == /\ fd \notin DOMAIN fds /\ files' = files + 1 /\ fds' = Put(fds, fd, files + 1) /\ size' = Put(size, files + 1, 0)
            /\ UNCHANGED <<segs, own>>
Close(fd) == fd \in DOMAIN fds /\ fds' = Drop(fds, fd) /\ UNCHANGED <<size, segs, own, files>>
Truncate(fd, n) == fd \in DOMAIN fds /\ size' = Put(size, fds[fd], n) /\ UNCHANGED <<fds, segs, own, files>>
Reserve(r, n) == (\A s \in segs : s.r # r) /\ segs' = segs \cup {[r |-> r, off |-> 0, n |-> n, f |-> 0, fo |-> 0]} /\ UNCHANGED <<fds, size, own, files>>
MapFixed(r, off, n, fd, fo) ==
  /\ fd \in DOMAIN fds
  /\ Covered(r, off, n)                    \* only over address space reserved before
  /\ segs' = Cut(segs, r, off, n) \cup {[r |-> r, off |-> off, n |-> n, f |-> fds[fd], fo |-> fo]}
  /\ UNCHANGED <<fds, size, own, files>>
Unmap(r, off, n) == /\ \E s \in segs : s.r = r
                    /\ segs' = Cut(segs, r, off, n) /\ UNCHANGED <<fds, size, own, files>>
Fault == UNCHANGED vvars

\* region r is one file of at least L pages, mapped twice back to back and nothing else
DoubleMap(r, L) == \E f \in DOMAIN size :
  /\ size[f] >= L
  /\ {s \in segs : s.r = r} = { [r |-> r, off |-> 0, n |-> L, f |-> f, fo |-> 0], [r |-> r, off |-> L, n |-> L, f |-> f, fo |-> 0] }
Owned(o) == {o[k] : k \in DOMAIN o} \ {0}
\* exactly what the live objects need is still held
Tight(o) == /\ {s.r : s \in segs} = Owned(o)
            /\ Cardinality(DOMAIN fds) <= Cardinality(Owned(o))
            /\ \A fd \in DOMAIN fds : \E s \in segs : s.f = fds[fd]
            /\ \A a, b \in DOMAIN o : a # b /\ o[a] # 0 => o[a] # o[b]
Made(id, r, L) == /\ own' = Put(own, id, r) /\ (r # 0 => DoubleMap(r, L)) /\ Tight(own') /\ UNCHANGED <<fds, size, segs, files>>
Gone(id) == /\ id \in DOMAIN own /\ own' = Drop(own, id) /\ Tight(own') /\ UNCHANGED <<fds, size, segs, files>>
\* ownership handed over: what `to` held before must have been given back
Moved(from, to) == /\ from \in DOMAIN own /\ to \in DOMAIN own
                   /\ own' = Put(Put(own, to, own[from]), from, 0) /\ Tight(own') /\ UNCHANGED <<fds, size, segs, files>>
\* the attempt to set up the double mapping again on a live object
Remade(id, r, L) == id \in DOMAIN own /\ Made(id, r, L)
VInv == \A s \in segs : s.n > 0
=============================================================================
