-------------------------------- MODULE GuiWin --------------------------------
(* The GUI window: the windowing, drawing and plotting libraries are set up in *)
(* an order they can stand, every frame is begun, drawn and presented once, a  *)
(* request to close is reported as it is, and whatever was set up is given     *)
(* back - by the destructor, or by a constructor one of whose steps failed.    *)
EXTENDS Naturals, Integers, Sequences
Down == [lib |-> FALSE, win |-> 0, cur |-> 0, im |-> FALSE, ip |-> FALSE, plat |-> FALSE, rend |-> FALSE, major |-> 1, minor |-> 0]
NoFrame == [open |-> FALSE, poll |-> FALSE, pn |-> FALSE, rn |-> FALSE, rendered |-> FALSE, fb |-> <<>>, vp |-> <<>>, clear |-> FALSE, drawn |-> 0, shown |-> 0]
New(e) == [l |-> Down, f |-> NoFrame, want |-> [w |-> 0, h |-> 0, title |-> ""], title |-> "", op |-> "none", up |-> FALSE, broke |-> FALSE, flag |-> FALSE, sync |-> 0]
Gone(l) == ~l.lib /\ l.win = 0 /\ ~l.im /\ ~l.ip /\ ~l.plat /\ ~l.rend
Whole(l) == l.lib /\ l.win # 0 /\ l.cur = l.win /\ l.im /\ l.ip /\ l.plat /\ l.rend
CanGL(l) == l.win # 0 /\ l.cur = l.win                                \* OpenGL calls need the window's context
Ok(s, e) == LET l == s.l f == s.f IN
  CASE e.e = "make" -> s.op = "none" /\ ~s.up
    [] e.e = "init" -> s.op = "make"
    [] e.e = "hint" -> l.lib
    [] e.e = "create" -> s.op = "make" /\ l.lib /\ l.win = 0 /\ e.w = s.want.w /\ e.h = s.want.h /\ (l.major * 10 + l.minor >= 33)
    [] e.e = "settitle" -> e.id = l.win /\ l.win # 0
    [] e.e = "current" -> l.lib /\ e.id \in {0, l.win}
    [] e.e = "interval" -> CanGL(l)
    [] e.e = "imctx" -> ~l.im
    [] e.e = "ipctx" -> ~l.ip
    [] e.e = "style" -> l.im
    [] e.e = "plat" -> l.im /\ ~l.plat /\ l.win # 0 /\ e.id = l.win
    [] e.e = "rend" -> l.im /\ ~l.rend /\ CanGL(l)
    [] e.e = "made" -> s.op = "make" /\ e.ok = ~s.broke /\ (IF e.ok THEN Whole(l) /\ s.title = s.want.title /\ s.sync >= 1 ELSE Gone(l))
    (* ---- giving back ---- *)
    [] e.e = "rendoff" -> l.rend /\ l.im /\ CanGL(l)
    [] e.e = "platoff" -> l.plat /\ l.im /\ l.win # 0
    [] e.e = "ipfree" -> l.ip
    [] e.e = "imfree" -> l.im /\ ~l.plat /\ ~l.rend
    [] e.e = "destroy" -> e.id = l.win /\ l.win # 0 /\ ~l.plat /\ ~l.rend
    [] e.e = "terminate" -> l.lib /\ ~l.plat /\ ~l.rend
    [] e.e = "drop" -> s.op = "none" /\ s.up
    [] e.e = "gone" -> s.op = "drop" /\ Gone(l)
    (* ---- one frame ---- *)
    [] e.e = "begin" -> s.op = "none" /\ s.up /\ ~f.open
    [] e.e = "poll" -> l.lib
    [] e.e = "rendnew" -> s.op = "begin" /\ l.rend /\ CanGL(l)
    [] e.e = "platnew" -> s.op = "begin" /\ l.plat /\ f.poll
    [] e.e = "newframe" -> s.op = "begin" /\ l.im /\ f.pn /\ f.rn /\ ~f.open
    [] e.e = "begun" -> s.op = "begin" /\ f.open
    [] e.e = "end" -> s.op = "none" /\ f.open
    [] e.e = "render" -> s.op = "end" /\ f.open /\ ~f.rendered
    [] e.e = "fb" -> e.id = l.win /\ l.win # 0
    [] e.e \in {"viewport", "gl", "clear"} -> CanGL(l)
    [] e.e = "draw" -> s.op = "end" /\ f.rendered /\ e.mine /\ f.clear /\ f.fb # <<>> /\ f.vp = f.fb /\ l.rend /\ CanGL(l)
    [] e.e = "swap" -> s.op = "end" /\ f.drawn = 1 /\ e.id = l.win
    [] e.e = "ended" -> s.op = "end" /\ f.rendered /\ f.drawn = 1 /\ f.shown = 1
    (* ---- closing ---- *)
    [] e.e = "flag" -> TRUE
    [] e.e = "ask" -> s.op = "none" /\ s.up
    [] e.e = "query" -> e.id = l.win /\ l.win # 0
    [] e.e = "asked" -> s.op = "ask" /\ e.v = s.flag
    [] e.e = "fin" -> s.op = "none" /\ ~s.up /\ Gone(l)
    [] OTHER -> FALSE                                                  \* a crash or a hang
Hint(l, e) == IF e.k = 0 THEN [l EXCEPT !.major = 1, !.minor = 0] ELSE IF e.k = 139266 THEN [l EXCEPT !.major = e.v] ELSE IF e.k = 139267 THEN [l EXCEPT !.minor = e.v] ELSE l
Step(s, e) ==
  CASE e.e = "make" -> [s EXCEPT !.op = "make", !.want = [w |-> e.w, h |-> e.h, title |-> e.title], !.broke = FALSE, !.flag = FALSE, !.title = "?", !.sync = 0]
    [] e.e = "init" -> IF e.ok THEN [s EXCEPT !.l.lib = TRUE] ELSE [s EXCEPT !.broke = TRUE]
    [] e.e = "hint" -> [s EXCEPT !.l = Hint(@, e)]
    [] e.e = "create" -> IF e.ok THEN [s EXCEPT !.l.win = e.id, !.title = e.title] ELSE [s EXCEPT !.broke = TRUE]
    [] e.e = "settitle" -> [s EXCEPT !.title = e.title]
    [] e.e = "current" -> [s EXCEPT !.l.cur = e.id]
    [] e.e = "interval" -> [s EXCEPT !.sync = e.n]
    [] e.e = "imctx" -> [s EXCEPT !.l.im = TRUE]
    [] e.e = "ipctx" -> [s EXCEPT !.l.ip = TRUE]
    [] e.e = "plat" -> [s EXCEPT !.l.plat = TRUE]
    [] e.e = "rend" -> IF e.ok THEN [s EXCEPT !.l.rend = TRUE] ELSE [s EXCEPT !.broke = TRUE]
    [] e.e = "made" -> [s EXCEPT !.op = "none", !.up = e.ok, !.f = NoFrame]
    [] e.e = "rendoff" -> [s EXCEPT !.l.rend = FALSE]
    [] e.e = "platoff" -> [s EXCEPT !.l.plat = FALSE]
    [] e.e = "ipfree" -> [s EXCEPT !.l.ip = FALSE]
    [] e.e = "imfree" -> [s EXCEPT !.l.im = FALSE]
    [] e.e = "destroy" -> [s EXCEPT !.l.win = 0, !.l.cur = 0]
    [] e.e = "terminate" -> [s EXCEPT !.l.lib = FALSE, !.l.win = 0, !.l.cur = 0, !.l.major = 1, !.l.minor = 0]     \* takes the windows along
    [] e.e \in {"drop", "begin", "end", "ask"} -> [s EXCEPT !.op = e.e]
    [] e.e = "gone" -> [s EXCEPT !.op = "none", !.up = FALSE]
    [] e.e = "poll" -> [s EXCEPT !.f.poll = TRUE]
    [] e.e = "rendnew" -> [s EXCEPT !.f.rn = TRUE]
    [] e.e = "platnew" -> [s EXCEPT !.f.pn = TRUE]
    [] e.e = "newframe" -> [s EXCEPT !.f.open = TRUE]
    [] e.e \in {"begun", "asked"} -> [s EXCEPT !.op = "none"]
    [] e.e = "render" -> [s EXCEPT !.f.rendered = TRUE]
    [] e.e = "fb" -> [s EXCEPT !.f.fb = <<e.w, e.h>>]
    [] e.e = "viewport" -> [s EXCEPT !.f.vp = <<e.w, e.h>>]
    [] e.e = "clear" -> [s EXCEPT !.f.clear = s.f.drawn = 0]
    [] e.e = "draw" -> [s EXCEPT !.f.drawn = @ + 1]
    [] e.e = "swap" -> [s EXCEPT !.f.shown = @ + 1]
    [] e.e = "ended" -> [s EXCEPT !.op = "none", !.f = NoFrame]
    [] e.e = "flag" -> [s EXCEPT !.flag = e.v]
    [] OTHER -> s
=============================================================================
