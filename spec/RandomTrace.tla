---- MODULE RandomTrace ----
(* P23. The life of a random search optimizer, over all of its sessions. A session starts new or from a saved state.     *)
EXTENDS Monitor

INF == 900000
NAN == 900001
Lt(a, b) == a # NAN /\ b # NAN /\ a < b
Fresh == [used |-> 0, best |-> INF, bk |-> 0, stop |-> 0]
RStart(t) == [i |-> 0, bad |-> {}, st |-> Fresh, saved |-> <<>>, conv |-> 0, bye |-> 0, run |-> 0]
RDo(x, e) ==
  LET sc == Traces[tr].sc IN
  CASE e.ev = "new" -> [x EXCEPT !.st = IF e.n = 0 THEN Fresh ELSE IF e.n > Len(x.saved) THEN @ ELSE x.saved[e.n], !.conv = 0, !.bye = 0, !.run = 1]
    [] e.ev = "eval" ->
         LET a == F(x, e.inb = 1, "P23", "evaluation outside the bounds")
             b == F(a, x.st.stop = 0, "P23", "evaluation after the stop request")
             c == F(b, x.st.used < sc.iters, "P23", "more evaluations than configured")
             d == F(c, x.conv = 0, "P23", "evaluation after convergence was announced")
             nb == Lt(e.v, x.st.best)
         IN [d EXCEPT !.st.used = @ + 1, !.st.best = IF nb THEN e.v ELSE @, !.st.bk = IF nb THEN e.n ELSE @]
    [] e.ev = "recv" ->
         CASE e.m = "stop" -> [x EXCEPT !.st.stop = 1]
           [] e.m = "save" -> [x EXCEPT !.saved = Append(@, x.st)]
           [] OTHER -> x
    [] e.ev = "sent" -> IF e.key = 0 THEN [F(x, x.conv = 0, "P23", "convergence announced twice") EXCEPT !.conv = 1] ELSE x
    [] e.ev = "bye" -> [F(x, x.bye = 0, "P23", "closed twice") EXCEPT !.bye = 1]
    [] e.ev = "ret" ->
         IF e.out = "task" THEN F(F(x, sc.fail # 0, "P23", "failed"), x.conv = 0, "P23", "failed after announcing convergence")
         ELSE LET a == F(x, x.st.stop = 1 \/ x.st.used = sc.iters, "P23", "ended before the configured number of evaluations")
                  b == F(a, e.fx = x.st.best /\ e.xk = x.st.bk, "P23", "returned point is not the best")
                  c == F(b, sc.solo = 1 \/ (x.conv = 1 /\ x.bye = 1), "P23", "convergence not announced exactly once")
              IN F(c, e.succ = 1, "P23", "not successful")
    [] OTHER -> x
====
