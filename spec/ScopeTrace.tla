---- MODULE ScopeTrace ----
(* P26. What the scope has to show after every update. `full` is everything an optimizer's curve ever received, `top`   *)
(* the furthest evaluation, `ls` and `mk` what was shown before, `since` the updates since the last redraw.             *)
EXTENDS Monitor

Nan == 900001
Low(a, b) == IF a = Nan THEN b ELSE IF b = Nan THEN a ELSE IF b < a THEN b ELSE a
Marks == <<"kill", "norm", "crash", "pause", "chk">>
Pos(op) == CHOOSE z \in 1..5 : Marks[z] = op
Tail2(q, z) == SubSeq(q, Len(q) - z + 1, Len(q))
LastOr(q) == IF q = <<>> THEN <<>> ELSE <<q[Len(q)]>>

EStart(t) == [i |-> 0, bad |-> {}, full |-> <<>>, best |-> <<>>, top |-> 0, ls |-> <<>>, mk |-> <<<<>>, <<>>, <<>>, <<>>, <<>>>>, since |-> 0, draws |-> 0]

EDo(x, e) ==
  IF e.ev /= "op" THEN x ELSE
  LET sc == Traces[tr].sc
      upd == e.op \in {"upd", "interrupt"}
      nb == IF upd THEN Low(x.best[e.o], e.y) ELSE Nan
      pt == <<e.x, IF sc.elite = 1 THEN nb ELSE e.y>>
      x1 == IF e.op = "add" THEN [x EXCEPT !.full = Append(@, <<>>), !.best = Append(@, Nan), !.ls = Append(@, <<>>)]
            ELSE IF upd THEN [x EXCEPT !.full[e.o] = Append(@, pt), !.best[e.o] = nb, !.top = IF e.x > @ THEN e.x ELSE @]
            ELSE x
      n == Len(x1.full)
      drawn == e.draws > x.draws
      x2 == F(x1, e.n = n /\ e.ids = [z \in 1..n |-> z], "P26", "wrong number of curves")
      \* a curve is the end of all it received: nothing inside the window is missing, nothing is altered
      edge == x1.top - sc.win
      x3 == F(x2, e.n /= n \/ \A z \in 1..n : LET l == e.lines[z] f == x1.full[z] IN
                 /\ Len(l) <= Len(f)
                 /\ l = Tail2(f, Len(l))
                 /\ (Len(l) < Len(f) => sc.win > 0 /\ f[Len(f) - Len(l)][1] < edge),
              "P26", "curve differs from the evaluations of the optimizer")
      x4 == F(x3, sc.win <= 0 \/ ~drawn \/ e.op = "reload" \/ \A z \in 1..n : \A y \in 1..Len(e.lines[z]) : e.lines[z][y][1] >= edge,
              "P26", "evaluations outside of the window drawn")
      ev == upd \/ e.op \in Range(Marks)
      wm == IF e.op \in Range(Marks) THEN [x.mk EXCEPT ![Pos(e.op)] = @ \o LastOr(x.ls[e.o])] ELSE x.mk
      x5 == F(x4, e.marks = wm, "P26", "wrong markers")
      x6 == F(x5, e.op /= "far" \/ e.far = LastOr(x.ls[e.o]), "P26", "wrong furthest point")
      si == IF drawn THEN 0 ELSE IF ev THEN x.since + 1 ELSE x.since
      x7 == F(x6, si <= sc.epf, "P26", "not redrawn after the configured number of events")
      x8 == F(x7, e.lost = 0, "P26", "user interrupt lost while drawing")
  IN [x8 EXCEPT !.ls = e.lines, !.mk = e.marks, !.since = si, !.draws = e.draws]
====
