---- MODULE PlotTrace ----
(* P31. The plots of a log show what is recorded in it. Ordinates are in thousandths.                                    *)
EXTENDS LogTrace

Log10 == <<0, 301, 477, 602, 699, 778, 845, 903, 954>>
ANY == -7777777
Lg(v) == IF v \in {INF, NAN, -INF} THEN 1000 * v ELSE IF v = 0 THEN ANY ELSE IF v > 0 THEN Log10[v] ELSE -Log10[-v]
Min2(a, b) == IF a <= b THEN a ELSE b
RECURSIVE Running(_)
Running(q) == IF Len(q) <= 1 THEN q ELSE LET z == Running(SubSeq(q, 1, Len(q) - 1)) IN Append(z, Min2(z[Len(z)], q[Len(q)]))
Shown(x, o) == IF Lost(x, o) THEN <<>> ELSE x.opts[o].rows
Ordinates(x, o, e) ==
  LET fx == [j \in DOMAIN Shown(x, o) |-> Shown(x, o)[j][3]]
      b == IF e.bst = 1 THEN Running(fx) ELSE fx
  IN [j \in DOMAIN b |-> IF e.log = 1 THEN Lg(b[j]) ELSE 1000 * b[j]]
Same(q, w) == DOMAIN q = DOMAIN w /\ \A j \in DOMAIN w : w[j] = ANY \/ q[j] = w[j]
Abscissae(x, o) == [j \in DOMAIN Shown(x, o) |-> Shown(x, o)[j][1]]
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Has(t, p) == \E j \in 1..Len(t) : Starts(SubSeq(t, j, Len(t)), p)
Final(q) == q[Len(q)]
Marker(t) == IF t = "GloMPO Termination" \/ t = "Forced GloMPO Termination" THEN "x"
             ELSE IF t \in {"Optimizer convergence: tolerance", "Normal termination (Reason unknown)"} THEN "*"
             ELSE IF t \in {"Error termination (exitcode 3)", "Traceback (most recent call last)"} THEN "s" ELSE ""
Opts(x) == 1..Len(x.opts)
NanIn(x) == \E o \in Opts(x) : \E j \in DOMAIN Shown(x, o) : Shown(x, o)[j][3] = NAN
Ended(x) == {z \in Opts(x) : Shown(x, z) # <<>> /\ Marker(x.opts[z].end_cond) # ""}
Marks(x, e) == {<<Final(Abscissae(x, o)), Final(Ordinates(x, o, e)), Marker(x.opts[o].end_cond)>> : o \in Ended(x)}
OkMark(m, S) == m \in S \/ <<m[1], ANY, m[3]>> \in S
Curve(x, c, e) == c.xs = Abscissae(x, c.o) /\ Same(c.ys, Ordinates(x, c.o, e)) /\ c.t = x.opts[c.o].type
OnPlot(x, e) ==
  IF e.bst = 1 /\ NanIn(x) THEN x
  ELSE IF e.exc # "" \/ Len(e.figs) # 1 THEN F(x, FALSE, "P31", "no plot of the trajectories")
  ELSE LET g == e.figs[1]
           a == F(x, g.name = "traj.png" /\ e.open = 0 /\ e.inter = 1, "P31", "figure left open, saved elsewhere or interactive mode changed")
           b == F(a, g.named = [o \in Opts(x) |-> o], "P31", "legend does not name every optimizer")
           c == F(b, \A j \in DOMAIN g.curves : g.curves[j].o \in Opts(x) /\ Curve(x, g.curves[j], e), "P31", "trajectory differs from the record")
           d == F(c, \A o \in Opts(x) : Shown(x, o) = <<>> \/ Cardinality({j \in DOMAIN g.curves : g.curves[j].o = o}) = 1, "P31", "trajectory missing or twice")
           S == Marks(x, e)
       IN F(d, Len(g.marks) = Cardinality(Ended(x)) /\ (\A j \in DOMAIN g.marks : OkMark(g.marks[j], S)) /\
                    (\A m \in S : \E j \in DOMAIN g.marks : OkMark(g.marks[j], {m})), "P31", "ends marked wrongly")
Col(x, o, k) == [j \in DOMAIN Shown(x, o) |-> 1000 * Shown(x, o)[j][2][k]]
Trial(x, g, o, e) ==
  /\ g.name = (IF e.sub = 1 THEN "sub/opt" ELSE "opt") \o ToString(o) \o "_parms.png"
  /\ Shown(x, o) = <<>> \/ (Len(g.trials) = 2 /\ \A k \in 1..2 : g.trials[k] = Col(x, o, k))
OnTrials(x, e) ==
  LET want == IF e.opt > 0 THEN <<e.opt>> ELSE [o \in Opts(x) |-> o]
      a == F(x, e.exc = "" /\ Len(e.figs) = Len(want), "P31", "plots of the trials missing")
  IN IF e.exc # "" \/ Len(e.figs) # Len(want) THEN a
     ELSE LET b == F(a, e.open = 0 /\ e.inter = 1, "P31", "figure left open or interactive mode changed")
          IN F(b, \A j \in DOMAIN want : \E k \in DOMAIN e.figs : Trial(x, e.figs[k], want[j], e), "P31", "plot of the trials differs from the record")
PDo(x, e) == CASE e.ev = "plot" -> OnPlot(x, e) [] e.ev = "trials" -> OnTrials(x, e) [] OTHER -> LDo(x, e)
====
