---- MODULE LogTrace ----
(* P15. The log as an abstract record of the run: whatever is asked, in memory, from the cache or from the file, is what  *)
(* was put in.                                                                                                           *)
EXTENDS Monitor

INF == 900000
NAN == 900001
Lt(a, b) == a # NAN /\ b # NAN /\ a < b
Fin(v) == v < INF /\ v > -INF

NoBest(o, t) == [o |-> o, fx |-> INF, c |-> 0, x |-> <<>>, t |-> t]
LStart(t) == [i |-> 0, bad |-> {}, opts |-> <<>>, total |-> 0, max |-> -INF, best |-> NoBest(0, "")]
New(o, t) == [type |-> t, rows |-> <<>>, extra |-> <<>>, hashist |-> FALSE, ex |-> FALSE, msgs |-> <<>>, end_cond |-> "?", settings |-> "?",
              gone |-> FALSE, best |-> NoBest(o, t)]
Put(x, e) ==
  LET c == x.total + 1
      p == x.opts[e.o]
      b == IF Lt(e.fx, p.best.fx) THEN [o |-> e.o, fx |-> e.fx, c |-> c, x |-> e.x, t |-> p.type] ELSE p.best
      y == [x EXCEPT !.opts[e.o].rows = Append(@, <<c, e.x, e.fx>>), !.opts[e.o].best = b, !.total = c,
                     !.opts[e.o].extra = IF p.ex THEN Append(@, <<2 * e.ex, e.ex>>) ELSE @,
                     !.max = IF Fin(e.fx) /\ e.fx > @ THEN e.fx ELSE @]
  IN IF Lt(e.fx, x.best.fx) THEN [y EXCEPT !.best = b] ELSE y
Op(x, e) ==
  LET k == e.op[1] IN
  CASE k = "add" -> [x EXCEPT !.opts = Append(@, New(e.o, e.a))]
    [] k = "hist" -> [x EXCEPT !.opts[e.o].hashist = TRUE, !.opts[e.o].ex = (e.ex = 1)]
    [] k = "put" -> Put(x, e)
    [] k = "msg" -> [x EXCEPT !.opts[e.o].msgs = Append(@, e.a)]
    [] k = "meta" -> IF e.a = "end_cond" THEN [x EXCEPT !.opts[e.o].end_cond = e.b] ELSE [x EXCEPT !.opts[e.o].settings = e.b]
    [] k = "clear" -> [x EXCEPT !.opts[e.o].gone = TRUE]
    [] OTHER -> x
\* without a log file and without the plot the data of optimizers cleared from the cache is given up
Lost(x, o) == LET sc == Traces[tr].sc IN sc.file = 0 /\ sc.traj = 0 /\ x.opts[o].gone
MetaOk(p, m, o) == m.opt_type = p.type /\ m.opt_id = ToString(o) /\ m.end_cond = p.end_cond /\ m.settings = p.settings
AllLost(x, all) == all /\ Traces[tr].sc.file = 0 /\ Traces[tr].sc.traj = 0
AskOpt(x, q, o) ==
  LET p == x.opts[o]
      lost == Lost(x, o)
      a == F(x, q.len = (IF lost THEN 0 ELSE Len(p.rows)), "P15", "wrong length of an optimizer")
      b == F(a, q.rows = (IF lost THEN <<>> ELSE p.rows) /\ q.same = 1, "P15", "wrong history of an optimizer")
      c == F(b, lost \/ q.extra = p.extra, "P15", "wrong additional columns")
      d == F(c, q.best = p.best, "P15", "wrong best evaluation of an optimizer")
      f == F(d, lost \/ MetaOk(p, q.meta, o), "P15", "wrong metadata")
      g == F(f, q.has = (IF ~lost /\ p.hashist THEN 1 ELSE 0), "P15", "wrong answer whether there is a history")
  IN F(g, q.inn = (IF lost THEN 0 ELSE 1), "P15", "wrong answer whether the optimizer is recorded")
RECURSIVE AskAll(_, _, _)
AskAll(x, e, o) == IF o > Len(e.opts) THEN x ELSE AskAll(AskOpt(x, e.opts[o], o), e, o + 1)
Whole(x, e) ==
  LET a == F(x, e.total = x.total, "P15", "wrong number of evaluations")
      b == F(a, e.n = Len(x.opts), "P15", "wrong number of optimizers")
      c == F(b, e.max = x.max, "P15", "wrong largest value")
  IN F(c, e.best = x.best, "P15", "wrong best evaluation")
FileOpt(x, q, o) ==
  LET p == x.opts[o]
      a == F(x, q.rows = p.rows, "P15", "wrong history in the file")
      b == F(a, q.extra = p.extra, "P15", "wrong additional columns in the file")
      c == F(b, q.msgs = p.msgs, "P15/P14", "wrong messages in the file")
      d == F(c, MetaOk(p, q.meta, o), "P15", "wrong metadata in the file")
  IN F(d, (q.best = <<>> /\ p.rows = <<>>) \/ q.best = <<p.best>>, "P15", "wrong best evaluation of an optimizer in the file")
RECURSIVE FileAll(_, _, _)
FileAll(x, e, o) == IF o > Len(e.opts) THEN x ELSE FileAll(FileOpt(x, e.opts[o], o), e, o + 1)

LDo(x, e) ==
  CASE e.ev = "op" -> Op(x, e)
    [] e.ev = "ask" -> LET y == Whole(x, e) IN IF e.n = Len(x.opts) THEN AskAll(y, e, 1) ELSE y
    [] e.ev = "file" -> LET y == F(Whole(x, e), e.groups = Len(x.opts), "P15", "wrong optimizers in the file")
                        IN IF e.n = Len(x.opts) THEN FileAll(y, e, 1) ELSE y
    [] OTHER -> x
====
