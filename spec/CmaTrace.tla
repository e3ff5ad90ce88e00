---- MODULE CmaTrace ----
(* P27. The life of a CMA-ES optimizer, over all of its sessions. It evaluates one population (generation) after the     *)
(* other; its best is that of the completed generations. A session starts new or from a saved state.                    *)
EXTENDS Monitor

INF == 900000
X0 == 1000
Min(S) == CHOOSE v \in S: \A w \in S: v <= w
\* gens: completed generations; mid: saved within a generation (whose points are then lost); loose: saved at a moment at
\* which the evaluations of a generation were complete but perhaps not yet processed
Fresh == [gens |-> 0, best |-> INF, bks |-> {}, stop |-> 0, mstop |-> 0, inc |-> [k |-> 0, v |-> INF], last |-> 0, due |-> 0, may |-> {},
          mid |-> 0, loose |-> 0]
RStart(t) == [i |-> 0, bad |-> {}, st |-> Fresh, cur |-> <<>>, saved |-> <<>>, conv |-> 0, bye |-> 0, pause |-> 0, wait |-> 0, gv |-> {INF}]

\* the incumbent is injected after a generation none of whose members is as good, if enough iterations passed
Inject(x, sc, vs, soft) ==
  IF sc.freq <= 0 \/ ~(x.st.inc.v < Min(vs)) THEN x
  ELSE LET gap == x.st.gens - x.st.last
       IN IF gap > sc.freq THEN [x EXCEPT !.st.last = IF soft THEN @ ELSE x.st.gens, !.st.due = IF soft THEN 0 ELSE x.st.inc.k, !.st.may = {x.st.inc.k}]
          ELSE IF gap = sc.freq THEN [x EXCEPT !.st.may = {x.st.inc.k}] ELSE x

\* a generation is processed once all of its evaluations were made; messages are read, then the incumbent may be injected
EndGen(x, sc) ==
  LET vs == {x.cur[j].v: j \in DOMAIN x.cur}
      m == Min(vs)
      nb == m < x.st.best
      pts == UNION {{x.cur[j].inj[q]: q \in DOMAIN x.cur[j].inj}: j \in DOMAIN x.cur}
      a == F(x, x.st.gens > 0 \/ x.st.mid = 1 \/ X0 \in pts, "P27", "starting point not evaluated in the first generation")
      b == F(a, x.st.due = 0 \/ sc.force = 0 \/ x.st.mid = 1 \/ x.st.due \in pts, "P27", "injected solution not evaluated in the next generation")
      c == F(b, x.st.gens = 0 \/ sc.force = 0 \/ x.st.mid = 1 \/ pts \subseteq x.st.may, "P27", "solution injected that should not be")
      \* the incumbent is at first the starting point with its value
      x0v == {x.cur[j].v: j \in {j \in DOMAIN x.cur: \E q \in DOMAIN x.cur[j].inj: x.cur[j].inj[q] = X0}}
      d == IF x.st.gens = 0 /\ x.st.inc.k = 0 THEN [c EXCEPT !.st.inc = [k |-> X0, v |-> IF x0v = {} THEN INF ELSE Min(x0v)]] ELSE c
  IN [d EXCEPT !.st.gens = @ + 1, !.st.best = IF nb THEN m ELSE @,
               !.st.bks = IF nb THEN {x.cur[j].n: j \in {j \in DOMAIN x.cur: x.cur[j].v = m}} ELSE @,
               !.st.due = 0, !.st.may = {}, !.st.mid = 0, !.cur = <<>>, !.gv = vs, !.wait = 1]

\* the first evaluation of a generation shows that the previous one was dealt with
BeginGen(x, sc) ==
  LET y == IF x.wait = 1 THEN Inject([x EXCEPT !.wait = 0], sc, x.gv, FALSE) ELSE x
      a == F(y, x.st.stop = 0 \/ x.st.mid = 1, "P27", "new generation after the stop request")
      b == F(a, sc.conv = 1 \/ x.st.gens < sc.gens, "P27", "more generations than configured")
  IN F(b, x.pause = 0, "P27", "new generation while paused")

Saved(x, sc) ==
  IF x.cur = <<>> THEN [(IF x.wait = 1 THEN Inject(x, sc, x.gv, TRUE) ELSE x).st EXCEPT !.due = 0]
  ELSE IF Len(x.cur) < sc.npop THEN [x.st EXCEPT !.due = 0, !.mid = 1]
  ELSE IF sc.workers > 1 THEN [x.st EXCEPT !.loose = 1]
  ELSE [Inject(EndGen(x, sc), sc, {x.cur[j].v: j \in DOMAIN x.cur}, TRUE).st EXCEPT !.due = 0]

RDo(x, e) ==
  LET sc == Traces[tr].sc IN
  IF e.ev = "new" THEN
         [x EXCEPT !.st = IF e.n = 0 THEN Fresh ELSE IF e.n > Len(x.saved) THEN @ ELSE x.saved[e.n], !.cur = <<>>, !.conv = 0, !.bye = 0,
                   !.pause = 0, !.wait = 0]
  ELSE IF x.st.loose = 1 THEN x
  ELSE CASE e.ev = "eval" ->
         LET w == IF Len(x.cur) = sc.npop THEN EndGen(x, sc) ELSE x
             y == IF w.cur = <<>> THEN BeginGen(w, sc) ELSE w
             a == F(y, e.inb = 1, "P27", "evaluation outside the bounds")
             c == F(a, x.conv = 0, "P27", "evaluation after convergence was announced")
         IN [c EXCEPT !.cur = Append(@, [n |-> e.n, v |-> e.v, inj |-> e.inj])]
    [] e.ev = "gen" -> IF Len(x.cur) = sc.npop THEN EndGen(x, sc) ELSE F(x, x.cur = <<>>, "P27", "incomplete generation processed")
    [] e.ev = "recv" ->
         CASE e.m = "stop" -> [x EXCEPT !.st.stop = 1, !.st.mstop = 1]
           [] e.m = "inject" -> [x EXCEPT !.st.inc = [k |-> e.n, v |-> e.v]]
           [] e.m = "save" -> [x EXCEPT !.saved = Append(@, Saved(x, sc))]
           [] OTHER -> x
    [] e.ev = "cb" -> [x EXCEPT !.st.stop = 1, !.st.mstop = IF @ = 1 THEN 2 ELSE @]
    [] e.ev = "pause" -> [x EXCEPT !.pause = 1]
    [] e.ev = "held" -> [x EXCEPT !.pause = 0]
    [] e.ev = "sent" -> IF e.key = 0 THEN [F(x, x.conv = 0, "P27", "convergence announced twice") EXCEPT !.conv = 1] ELSE x
    [] e.ev = "bye" -> [F(x, x.bye = 0, "P27", "closed twice") EXCEPT !.bye = 1]
    [] e.ev = "ret" ->
         IF e.out = "task" THEN F(F(x, sc.fail # 0, "P27", "failed"), x.conv = 0, "P27", "failed after announcing convergence")
         ELSE LET y == IF Len(x.cur) = sc.npop THEN EndGen(x, sc) ELSE x
                  a == F(y, y.st.stop = 1 \/ sc.conv = 1 \/ y.st.gens = sc.gens, "P27", "ended before the configured number of generations")
                  a2 == F(a, y.st.stop = 1 \/ y.cur = <<>>, "P27", "ended within a generation")
                  b == F(a2, e.fx = y.st.best /\ (y.st.best = INF \/ \E q \in DOMAIN e.xk: e.xk[q] \in y.st.bks), "P27", "returned point is not the best")
                  c == F(b, sc.solo = 1 \/ (x.conv = 1 /\ x.bye = 1), "P27", "convergence not announced exactly once")
                  d == F(c, y.st.mstop = 2 \/ e.succ = (IF y.st.best < INF /\ y.st.mstop = 0 THEN 1 ELSE 0), "P27", "success misreported")
                  g == F(d, sc.verbose = 1 \/ e.said = 0, "P27", "printed although not verbose")
              IN F(g, e.x = 1 \/ y.st.gens = 0, "P27", "no point returned")
    [] OTHER -> x
====
