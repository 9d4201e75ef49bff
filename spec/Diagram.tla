------------------------------- MODULE Diagram -------------------------------
(* The diagram tool: the blocks a program declares and the runners it builds   *)
(* are the nodes and edges of the flow chart, each exactly once; a graph that  *)
(* mentions an unknown block is refused; every file is handled on its own.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
Zero == [decls |-> <<>>, runs |-> <<>>, gname |-> "", file |-> "", flow |-> FALSE]
New(e) == [k |-> e.k, p |-> Zero, ps |-> <<>>, fs |-> <<>>, at |-> 0, ok |-> FALSE]
(* ---- what a program says ---- *)
IsBlock(d) == d[3] \in {"Block", "block"}
Blocks(p) == {p.decls[i][1] : i \in {i \in 1..Len(p.decls) : IsBlock(p.decls[i])}}
DeclOf(p, v) == p.decls[CHOOSE i \in 1..Len(p.decls) : p.decls[i][1] = v /\ IsBlock(p.decls[i])
                        /\ \A j \in 1..(i - 1) : ~(p.decls[j][1] = v /\ IsBlock(p.decls[j]))]
TypeOf(d) == d[2] \o d[3] \o d[4]
Shown(d) == IF d[3] = "Block" THEN d[2] \o d[4] ELSE TypeOf(d)
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN <<>> ELSE LET f == Uniq(SubSeq(q, 1, Len(q) - 1)) x == q[Len(q)] IN IF \E i \in 1..Len(f) : f[i] = x THEN f ELSE Append(f, x)
Wires(run) == LET t == SelectSeq(run[2], LAMBDA x : x[1] # "") IN [i \in 1..Len(t) |-> <<run[1], t[i][1], t[i][2], t[i][3], t[i][4]>>]
Conns(p) == Uniq(FlattenSeq([i \in 1..Len(p.runs) |-> Wires(p.runs[i])]))
InGraph(p, v) == v \in Blocks(p) /\ \E i \in 1..Len(p.runs) : p.runs[i][1] = v \/ \E j \in 1..Len(p.runs[i][2]) : p.runs[i][2][j][1] = v
Bad(p, c) == c[1] \notin Blocks(p) \/ c[2] \notin Blocks(p)
BadAt(p) == LET c == Conns(p) IN {i \in 1..Len(c) : Bad(p, c[i])}
Valid(p) == BadAt(p) = {}
Complaint(p) == IF Valid(p) THEN "" ELSE LET c == Conns(p)[CHOOSE i \in BadAt(p) : \A j \in BadAt(p) : i <= j] IN
                IF c[1] \notin Blocks(p) THEN "Unknown source block: " \o c[1] ELSE "Unknown target block: " \o c[2]
Lonely(p, v) == LET c == Conns(p) IN \A i \in 1..Len(c) : c[i][1] # v /\ c[i][2] # v
Warnings(p) == IF ~Valid(p) THEN {} ELSE {"Isolated block: " \o v : v \in {v \in Blocks(p) : InGraph(p, v) /\ Lonely(p, v)}}
                                         \cup {"Block declared but not used in flowgraph: " \o v : v \in {v \in Blocks(p) : ~InGraph(p, v)}}
Feeds(p, v) == LET c == SelectSeq(Conns(p), LAMBDA x : x[2] = v) IN Uniq([i \in 1..Len(c) |-> IF c[i][4] >= 0 THEN c[i][3] \o "[" \o c[i][5] \o "]" ELSE c[i][3]])
Drives(p, v) == LET c == Conns(p) IN \E i \in 1..Len(c) : c[i][1] = v
Source(p, v) == Drives(p, v) /\ Feeds(p, v) = <<>>
Sink(p, v) == ~Drives(p, v) /\ Feeds(p, v) # <<>>
Role(p, v) == IF Source(p, v) THEN "source" ELSE IF Sink(p, v) THEN "sink" ELSE "mid"
(* ---- what the tool makes of it ---- *)
Bag(q, S) == Len(q) = Cardinality(S) /\ ToSet(q) = S
BlockOk(p, b) == LET d == DeclOf(p, b[1]) IN
  /\ b[2] = b[1] /\ b[3] = TypeOf(d) /\ b[4] = d[5] /\ b[5] = InGraph(p, b[1]) /\ b[8] = d[6]
  /\ b[6] = Feeds(p, b[1]) /\ b[7] = (IF Drives(p, b[1]) THEN <<"out">> ELSE <<>>)
  /\ b[9] = Source(p, b[1]) /\ b[10] = Sink(p, b[1])
GraphOk(p, e) ==
  /\ e.trees = 0 /\ e.valid = Valid(p) /\ e.err = Complaint(p) /\ Bag(e.warn, Warnings(p))
  /\ e.name = (IF p.gname = "" THEN p.file ELSE p.gname)
  /\ Bag([i \in 1..Len(e.blocks) |-> e.blocks[i][1]], Blocks(p)) /\ \A i \in 1..Len(e.blocks) : BlockOk(p, e.blocks[i])
  /\ LET c == Conns(p) IN e.conns = [i \in 1..Len(c) |-> <<c[i][1], "out", c[i][2], c[i][3], c[i][4]>>]
Drawn(p) == {v \in Blocks(p) : InGraph(p, v)}
NodeOf(e, v) == e.nodes[CHOOSE i \in 1..Len(e.nodes) : e.nodes[i][2] = v]
ColourOf(e, id) == e.styles[CHOOSE i \in 1..Len(e.styles) : e.styles[i][1] = id][2]
Times(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
MdOk(p, e) ==
  /\ e.form
  /\ Bag([i \in 1..Len(e.nodes) |-> e.nodes[i][2]], Drawn(p))                      \* every block of the graph, once
  /\ Cardinality({e.nodes[i][1] : i \in 1..Len(e.nodes)}) = Len(e.nodes)           \* under a name of its own
  /\ \A v \in Drawn(p) : LET n == NodeOf(e, v) d == DeclOf(p, v) IN n[3] = Shown(d) /\ n[4] = d[5] /\ n[5] = Role(p, v)
  /\ LET c == Conns(p) w == [i \in 1..Len(c) |-> <<NodeOf(e, c[i][1])[1], NodeOf(e, c[i][2])[1]>>] IN     \* every connection, once
       Len(e.edges) = Len(w) /\ \A x \in ToSet(w) \cup ToSet(e.edges) : Times(w, x) = Times(e.edges, x)
  /\ Bag([i \in 1..Len(e.styles) |-> e.styles[i][1]], {e.nodes[i][1] : i \in 1..Len(e.nodes)})
  /\ \A v, w \in Drawn(p) : (Role(p, v) = Role(p, w)) = (ColourOf(e, NodeOf(e, v)[1]) = ColourOf(e, NodeOf(e, w)[1]))
(* ---- the command line tool: one verdict per file, whatever happens to the others ---- *)
Fate(p, f) == IF f.kind = "missing" THEN "failed" ELSE IF ~p.flow THEN "skipped" ELSE
              IF f.kind = "noparse" \/ ~Valid(p) \/ Blocks(p) = {} \/ f.kind = "nowrite" THEN "failed" ELSE "done"
Count(s, w) == Cardinality({i \in 1..Len(s.fs) : Fate(s.ps[i], s.fs[i]) = w})
Refused(e) == e.help \/ e.refuse
RanOk(s, e) == IF e.help THEN e.rc = 0 ELSE IF e.refuse THEN e.rc = 1 ELSE
  /\ e.rc = (IF Count(s, "failed") > 0 THEN 1 ELSE 0)
  /\ e.sum => e.scanned = Len(s.fs) /\ e.skipped = Count(s, "skipped") /\ e.done = Count(s, "done") /\ e.failed = Count(s, "failed")
MadeOk(s, e) == Bag(e.files, IF s.ok THEN {s.fs[i].out : i \in {i \in 1..Len(s.fs) : Fate(s.ps[i], s.fs[i]) = "done"}} ELSE {})
Ok(s, e) ==
  CASE e.e = "screen" -> e.flow = s.p.flow
    [] e.e = "graph" -> GraphOk(s.p, e)
    [] e.e = "noparse" -> ~e.valid /\ e.said /\ e.blocks = 0
    [] e.e = "again" -> e.v /\ Bag(e.warn, Warnings(s.p))
    [] e.e = "md" -> IF s.k = "parse" THEN MdOk(s.p, e) ELSE MdOk(s.ps[s.at], e)
    [] e.e = "ran" -> RanOk(s, e)
    [] e.e = "made" -> MadeOk(s, e)
    [] e.e = "end" -> e.trees = 0 /\ e.parsers = 0
    [] e.e \in {"prog", "file", "which"} -> TRUE
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.e = "prog" -> [s EXCEPT !.p = e, !.ps = Append(@, e)]
    [] e.e = "file" -> [s EXCEPT !.fs = Append(@, e)]
    [] e.e = "ran" -> [s EXCEPT !.ok = ~Refused(e)]
    [] e.e = "which" -> [s EXCEPT !.at = e.i]
    [] OTHER -> s
=============================================================================
