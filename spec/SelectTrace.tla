---- MODULE SelectTrace ----
(* P20. What each selector and spawn control may answer. *)
EXTENDS Monitor

Opt(d) == [k |-> "opt", c |-> d.c, a |-> IF d.form = "tuple" THEN d.a ELSE 0, b |-> IF d.form = "tuple" THEN d.b ELSE 0,
           w |-> IF d.form = "tuple" /\ d.w > 0 THEN d.w ELSE 1, more |-> 0]
Nil(k) == [k |-> k, c |-> "", a |-> 0, b |-> 0, w |-> 0, more |-> 0]
Refused(sc, e) == (sc.ctl = "iter" /\ e.f >= sc.lim) \/ (sc.ctl = "nopt" /\ e.o >= sc.lim)
Fit(sc, e) == {Opt(sc.opts[z]) : z \in {y \in 1..Len(sc.opts) : Opt(sc.opts[y]).w <= e.slots}}
Reached(sc, e) == Cardinality({z \in 1..Len(sc.th) : e.f >= sc.th[z]})
Clip(sc, e, z) == IF Opt(sc.opts[z]).w <= e.slots THEN Opt(sc.opts[z]) ELSE Nil("none")

EStart(t) == [i |-> 0, bad |-> {}, pos |-> 1]
EDo(x, e) ==
  IF e.ev /= "select" THEN x ELSE
  LET sc == Traces[tr].sc
      n == Len(sc.opts)
      h == F(x, \A z \in 1..3 : (e.has[z] = 1) = (\E y \in 1..n : sc.opts[y].c = <<"A", "B", "C">>[z]), "P20", "wrong answer which optimizers are configured")
  IN IF Refused(sc, e) THEN F(h, Range(e.outs) = {Nil("stop")}, "P20", "spawn control not obeyed")
     ELSE CASE sc.kind = "random" ->
                 LET y == F(h, IF Fit(sc, e) = {} THEN Range(e.outs) = {Nil("none")} ELSE Range(e.outs) \subseteq Fit(sc, e), "P20", "random selector offers what does not fit or is not configured")
                 IN F(y, Len(e.outs) < 60 \/ Fit(sc, e) = {} \/ Range(e.outs) = Fit(sc, e), "P20", "random selector never offers some optimizer")
            [] sc.kind = "cycle" ->
                 LET w == Clip(sc, e, x.pos)
                     y == F(h, e.outs = <<w>>, "P20", "cycle not followed")
                 IN IF w.k = "opt" THEN [y EXCEPT !.pos = (@ % n) + 1] ELSE y
            [] OTHER ->
                 LET z == Reached(sc, e) + 1 IN
                 F(h, e.outs = <<IF z > n THEN Nil("stop") ELSE Clip(sc, e, z)>>, "P20", "chain not followed")
====
