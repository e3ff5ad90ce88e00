---- MODULE SignalTrace ----
(* P14 (optimizer side) and P01 (what is reported). Every signal which can be understood is executed once and in order, *)
(* whatever lies between; a request to prepare a checkpoint is acknowledged and ends in one pause; every evaluation is   *)
(* reported as it was made, and the end is reported exactly once, whatever the reason.                                   *)
EXTENDS Monitor

Known == {"stop", "stopmsg", "inject", "pass", "save", "prepare"}
Junk(m) == m[1] \notin Known
As(m) == IF m[1] = "stopmsg" THEN <<"stop", m[2]>> ELSE m
Exec(sent) == LET v == SelectSeq(sent, LAMBDA m : ~Junk(m) /\ m[1] # "prepare") IN [z \in 1..Len(v) |-> As(v[z])]
Key(m) == CASE m[1] \in {"stop", "stopmsg"} -> 1 [] m[1] = "inject" -> 4 [] m[1] = "pass" -> 3 [] m[1] = "save" -> 0 [] m[1] = "prepare" -> 2
Incumbent(old, q) == LET v == SelectSeq(q, LAMBDA m : m[1] = "inject") IN IF v = <<>> THEN old ELSE <<v[Len(v)][2], v[Len(v)][3]>>

SStart(t) == [i |-> 0, bad |-> {}, inc |-> <<"None", "None">>]
Signals(x, e) ==
  LET valid == SelectSeq(e.sent, LAMBDA m : ~Junk(m))
      preps == SelectSeq(e.sent, LAMBDA m : m[1] = "prepare")
      acts == SelectSeq(e.done, LAMBDA m : m[1] \notin {"wait", "nowait"})
      waits == SelectSeq(e.done, LAMBDA m : m[1] = "wait")
      inc == Incumbent(x.inc, e.sent)
      a == F(x, acts = Exec(e.sent), "P14", "signals not executed once and in order")
      b == F(a, e.left = 0, "P14", "signals left unread")
      c == F(b, e.replies = [z \in 1..Len(preps) |-> 1], "P14/P08", "wrong replies to the manager")
      d == F(c, Len(waits) = Len(preps) /\ Len(e.done) = Len(acts) + Len(waits), "P14/P08", "a checkpoint does not end in one pause")
      f == F(d, Len(preps) > 0 \/ e.ret = [z \in 1..Len(valid) |-> Key(valid[z])], "P14", "wrong signals returned")
      g == F(f, e.inc = inc, "P14/P19", "incumbent not that of the manager")
      \* the pause comes after the instruction which follows the request
      pos == CHOOSE z \in 0..Len(e.done) : (z = 0 /\ Len(waits) = 0) \/ (z > 0 /\ e.done[z][1] = "wait")
      h == F(g, Len(waits) = 0 \/ (pos > 1 /\ \E z \in 1..(pos - 1) : e.done[z][1] \in {"pass", "save"}), "P14/P08", "paused before it saved")
  IN [h EXCEPT !.inc = inc]

RunIt(x, e) ==
  LET sc == Traces[tr].sc
      extras == [z \in 1..sc.nextra |-> 99 + z]
      det(c) == sc.isdet = 1 \/ c[1] = "det"
      \* the first call which needs a detailed function where there is none fails
      lack == {z \in 1..Len(sc.calls) : sc.hasdet = 0 /\ det(sc.calls[z])}
      ctor == sc.isdet = 1 /\ sc.hasdet = 0
      fails == ctor \/ lack # {}
      n == IF ctor THEN 0 ELSE IF lack = {} THEN Len(sc.calls) ELSE (CHOOSE z \in lack : \A y \in lack : z <= y) - 1
      res == [z \in 1..n |-> [k |-> "res", o |-> sc.oid, n |-> z - 1, fx |-> sc.calls[z][3], ex |-> IF det(sc.calls[z]) THEN extras ELSE <<>>]]
      a == F(x, e.q = res \o <<[k |-> "end", o |-> sc.oid, n |-> 0, fx |-> 0, ex |-> <<>>]>>, "P14/P01/P29", "results and end not reported exactly once, in order")
      b == F(a, e.rets = [z \in 1..n |-> <<sc.calls[z][1], <<sc.calls[z][3]>> \o (IF sc.calls[z][1] = "det" THEN extras ELSE <<>>),
                                          IF sc.calls[z][1] = "det" THEN 1 ELSE 0>>], "P01/P29", "the optimizer is given another value")
      bad == fails \/ sc.end = "raise"
      c == F(b, bad => Len(e.msgs) = 1 /\ e.msgs[1][1] = 9 /\ e.msgs[1][3] = 1 /\ (fails \/ e.msgs[1][2] = 1), "P14", "traceback not sent")
      d == F(c, ~bad => e.msgs = <<>>, "P14", "a message nobody sent")
  IN F(d, (e.err # "") = bad, "P14", "failure of the optimizer hidden or invented")

SDo(x, e) == CASE e.ev = "signals" -> Signals(x, e) [] e.ev = "run" -> RunIt(x, e) [] OTHER -> x
====
