------------------------------ MODULE GuiWinImpl ------------------------------
(* The window manager as it is written - a constructor that unwinds what it    *)
(* has set up when a step fails, frames, a destructor - with any step failing, *)
(* any number of frames and any number of lives: GuiWin must accept each step. *)
EXTENDS GuiWin, TLC
CONSTANTS Lives, Frames, Variant
VARIABLES s, todo, lives, frames, ids
V == <<s, todo, lives, frames, ids>>
Ev(n) == [e |-> n]
Fail(up) == up \o <<[e |-> "made", ok |-> FALSE]>>
Unwind == <<Ev("platoff"), Ev("ipfree"), Ev("imfree"), [e |-> "destroy", id |-> ids + 1], Ev("terminate")>>
Make(step) ==
  LET w == ids + 1
      a == <<[e |-> "make", w |-> 8, h |-> 4, title |-> "t"], [e |-> "init", ok |-> step # "init"]>>
      b == <<[e |-> "hint", k |-> 139266, v |-> 3], [e |-> "hint", k |-> 139267, v |-> 3], [e |-> "create", w |-> 8, h |-> 4, title |-> "t", ok |-> step # "create", id |-> IF step = "create" THEN 0 ELSE w]>>
      c == <<[e |-> "current", id |-> w], [e |-> "interval", n |-> 1], Ev("gl"), Ev("imctx"), Ev("ipctx"), Ev("style"), [e |-> "plat", id |-> w], [e |-> "rend", ok |-> step # "render"]>> IN
  IF step = "init" THEN a \o Fail(<<>>)
  ELSE IF step = "create" THEN a \o b \o Fail(IF Variant = "leak" THEN <<>> ELSE <<Ev("terminate")>>)
  ELSE IF step = "render" THEN a \o b \o c \o Fail(Unwind)
  ELSE a \o b \o c \o <<Ev("style"), [e |-> "made", ok |-> TRUE]>>
Frame(x, y) == <<Ev("begin"), Ev("poll"), Ev("rendnew"), Ev("platnew"), Ev("newframe"), Ev("begun"), Ev("end"), Ev("render"), [e |-> "fb", id |-> ids, w |-> x, h |-> y],
                 [e |-> "viewport", w |-> x, h |-> y], Ev("gl"), Ev("clear"), [e |-> "draw", mine |-> TRUE], [e |-> "swap", id |-> ids], Ev("ended")>>
Ask == <<Ev("ask"), [e |-> "query", id |-> ids], [e |-> "asked", v |-> s.flag]>>
Drop == <<Ev("drop")>> \o (IF Variant = "order" THEN <<Ev("ipfree"), Ev("imfree"), Ev("rendoff"), Ev("platoff")>> ELSE <<Ev("rendoff"), Ev("platoff"), Ev("ipfree"), Ev("imfree")>>)
        \o <<[e |-> "destroy", id |-> ids], Ev("terminate"), Ev("gone")>>
Init == s = New(0) /\ todo = <<>> /\ lives = 0 /\ frames = 0 /\ ids = 0
Go == todo # <<>> /\ s' = Step(s, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<lives, frames, ids>>
Idle == todo = <<>>
Born == Idle /\ ~s.up /\ lives < Lives /\ \E f \in {"none", "init", "create", "render"} :
          todo' = Make(f) /\ lives' = lives + 1 /\ frames' = 0 /\ ids' = (IF f \in {"init", "create"} THEN ids ELSE ids + 1) /\ UNCHANGED s
Draw == Idle /\ s.up /\ frames < Frames /\ \E x, y \in 0..2 : todo' = Frame(x, y) /\ frames' = frames + 1 /\ UNCHANGED <<s, lives, ids>>
Close == Idle /\ s.up /\ s' = Step(s, [e |-> "flag", v |-> ~s.flag]) /\ UNCHANGED <<todo, lives, frames, ids>>
Look == Idle /\ s.up /\ todo' = Ask /\ UNCHANGED <<s, lives, frames, ids>>
Die == Idle /\ s.up /\ todo' = Drop /\ UNCHANGED <<s, lives, frames, ids>>
Next == Go \/ Born \/ Draw \/ Close \/ Look \/ Die
Spec == Init /\ [][Next]_V
Accepts == todo # <<>> => Ok(s, Head(todo)) = TRUE
Returned == (Idle /\ ~s.up) => Gone(s.l)
=============================================================================
