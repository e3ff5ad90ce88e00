---- MODULE CheckTrace ----
(* P12. The supplied exit conditions as documented. Values are in 1/16 (first part) and 1e-7 (second part); times in 1/8 s. *)
EXTENDS Monitor

CStart(t) == [i |-> 0, bad |-> {}, t |-> tr, base |-> [z \in 1..Len(t.sc.cks) |-> -1]]
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
\* kills at the first check which saw enough converged optimizers
Base(b, c, st) == IF c.k = "after" /\ b = -1 /\ st.conv >= c.b THEN st.kills ELSE b
Want(c, b, st) ==
  CASE c.k = "fmax" -> st.f >= c.a
    [] c.k = "omax" -> st.o >= c.a
    [] c.k = "nconv" -> st.conv >= c.a
    [] c.k = "kills" -> st.kills >= c.a
    [] c.k = "after" -> b # -1 /\ st.kills - b >= c.a
    [] c.k = "target" -> st.sp = "ninf" \/ (st.sp = "" /\ Leq(st.fx, <<c.a + c.b, IF c.dflt = 1 THEN 10 ELSE 0>>))
    [] c.k = "session" -> st.started = 1 /\ st.now >= c.a
    [] c.k = "overall" -> (IF st.started = 1 THEN st.now ELSE 0) + st.used >= c.a
CDo(x, e) ==
  IF e.ev /= "check" THEN x ELSE
  LET cks == Traces[tr].sc.cks
      base == [z \in 1..Len(cks) |-> Base(x.base[z], cks[z], e.st)]
      RECURSIVE Go(_, _)
      Go(y, z) == IF z > Len(cks) THEN y ELSE
        LET w == IF Want(cks[z], base[z], e.st) THEN "T" ELSE "F"
            y1 == F(y, e.ret[z] = w, "P12", "wrong answer of " \o cks[z].k)
        IN Go(F(y1, e.last[z] = e.ret[z], "P12", "last result of " \o cks[z].k \o " is not its answer"), z + 1)
  IN [Go(x, 1) EXCEPT !.base = base]
====
