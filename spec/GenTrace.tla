---- MODULE GenTrace ----
(* P21. Starting points: coordinates in 1/8000; lo and hi enclose the coordinate which was returned.                      *)
EXTENDS Monitor

INF == 900000
NAN == 900001
U == 8000
Lt(a, b) == a # NAN /\ b # NAN /\ a < b
Fin(v) == v < INF /\ v > -INF
GStart(t) == [i |-> 0, bad |-> {}, fx |-> <<>>, x |-> <<>>, best |-> INF, bx |-> <<>>, first |-> <<>>]
Exactly(e, p) == e.lo = p /\ e.hi = p
Near(e, p, d, sc) == \A z \in 1..sc.dims : e.lo[z] >= p[z] - d - 1 /\ e.hi[z] <= p[z] + d + 1
(* the step is adjusted by its factor (0.9) at multiples of the interval only, never beyond the maximum *)
Close(a, b) == a - b <= 2 /\ b - a <= 2
StepOK(b, e, sc, n) ==
  LET old == e.ss[1]  new == e.ss[2]
      up == (old * 10) \div 9
      top == sc.stepsize * 125000
  IN F(b, old = -1 \/ new = old \/ (n % sc.interval = 0 /\ (Close(new, (old * 9) \div 10) \/ Close(new, IF up < top THEN up ELSE top))),
       "P21", "step size of the generator not adjusted as documented")
GDo(x, e) ==
  LET sc == Traces[tr].sc IN
  CASE e.ev = "add" -> [x EXCEPT !.fx = Append(@, INF), !.x = Append(@, <<>>)]
    [] e.ev = "put" ->
         LET y == IF Lt(e.fx, x.fx[e.o]) THEN [x EXCEPT !.fx[e.o] = e.fx, !.x[e.o] = e.x] ELSE x
         IN IF Lt(e.fx, x.best) THEN [y EXCEPT !.best = e.fx, !.bx = e.x] ELSE y
    [] e.ev = "gen" ->
         LET dims == Len(e.lo) = sc.dims
             a == F(x, dims, "P21", "not one coordinate per parameter")
             b == F(a, ~dims \/ \A z \in 1..sc.dims : e.lo[z] >= sc.bounds[z][1] * U /\ e.hi[z] <= sc.bounds[z][2] * U,
                    "P21", "starting point outside the bounds")
             known == {o \in 1..Len(x.fx) : x.x[o] # <<>>}
             fin == {o \in known : Fin(x.fx[o])}
             c == CASE ~dims -> b
                    [] sc.kind = "best" -> F(b, x.bx = <<>> \/ Exactly(e, x.bx), "P21", "not the incumbent")
                    [] sc.kind = "single" ->
                         F(b, (sc.given = 0 \/ Exactly(e, [z \in 1..sc.dims |-> (sc.x0[z] * U)])) /\ (x.first = <<>> \/ x.first = <<e.lo, e.hi>>),
                           "P21", "not always the same point")
                    [] sc.kind = "basin" ->
                         F(StepOK(b, e, sc, Len(x.fx)), x.bx = <<>> \/ \E o \in known : Near(e, x.x[o], sc.stepsize * (U \div 8), sc), "P21", "further than the maximum step from every known best")
                    [] sc.kind = "expl" ->
                         \* at the end of the budget: a known best, other than the worst, whenever the optimizers differ
                         LET vals == {x.fx[o] : o \in fin}
                             good == {o \in fin : \E v \in vals : x.fx[o] < v}
                             n == IF e.f > sc.maxf THEN sc.maxf ELSE e.f
                             q == IF sc.focus = "2" THEN sc.maxf * sc.maxf - n * n ELSE sc.maxf * sc.maxf - sc.maxf * n
                             gap == [z \in 1..sc.dims |-> (((sc.bounds[z][2] - sc.bounds[z][1]) * q * 80) \div (sc.maxf * sc.maxf))* 100 + 100]
                             mixed == \E o \in good : \A z \in 1..sc.dims : e.lo[z] >= x.x[o][z] - gap[z] /\ e.hi[z] <= x.x[o][z] + gap[z]
                         IN F(F(b, good = {} \/ mixed, "P21", "not the blend of a known best and a random point"),
                              e.f < sc.maxf \/ good = {} \/ \E o \in good : Exactly(e, x.x[o]), "P21", "not a known point although the evaluations are used up")
                    [] OTHER -> b
             d == F(c, e.df = e.evals /\ e.dl = e.evals, "P21/P01", "evaluations of the generator not counted")
         IN IF dims THEN [d EXCEPT !.first = IF @ = <<>> THEN <<e.lo, e.hi>> ELSE @] ELSE d
    [] OTHER -> x
====
