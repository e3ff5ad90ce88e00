---- MODULE HuntTrace ----
(* P13. The supplied killing conditions as documented, decided in exact integer arithmetic from the history of the log. *)
(* Answers: "T", "F", or "?" where rounding or infinities leave both possible; annealing: number of kills in n draws.   *)
EXTENDS Monitor

INF == 900000
NAN == 900001
Fin(v) == v < INF /\ v > -INF
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Last(q, n) == SubSeq(q, Len(q) - n + 1, Len(q))
\* lowest value; NaN never is
Min(q) == LET ok == {v \in Range(q) : v # NAN} IN IF ok = {} THEN NAN ELSE CHOOSE v \in ok : \A w \in ok : v <= w
D2(p, q) == Sum([z \in 1..Len(p) |-> (p[z] - q[z]) * (p[z] - q[z])])
ISqrt(v) == CHOOSE z \in 0..2000 : z * z = v   \* only used on perfect squares
Trans2(sc) == Sum([z \in 1..sc.dims |-> (sc.bounds[z][2] - sc.bounds[z][1]) * (sc.bounds[z][2] - sc.bounds[z][1])])
B(v) == IF v THEN "T" ELSE "F"
\* l <= r where equality is only certain to be recognised by exact arithmetic
Leq(l, r, exact) == IF l = r /\ ~exact THEN "?" ELSE B(l <= r)

Best(sc, h, v) ==
  IF Len(v.fx) <= h.a THEN "F" ELSE
  LET at == Min(SubSeq(v.fx, 1, Len(v.fx) - h.a))
      end == Min(v.fx)
  IN IF at = NAN THEN "F" ELSE IF ~Fin(at) \/ ~Fin(end) THEN "?"
     ELSE B(Abs(end - at) * h.den <= Abs(at) * h.num)
Evals(sc, h, v) ==
  IF Len(v.fx) < h.a THEN "F" ELSE
  LET w == Last(v.fx, h.a)
      k == h.a
      tot == Sum(w)
      var == k * Sum([z \in 1..k |-> w[z] * w[z]]) - tot * tot      \* (k * std)^2
      l == w[k]
  IN IF \E z \in 1..k : ~Fin(w[z]) THEN "F"
     ELSE Leq(var * h.den * h.den, l * l * h.num * h.num * k * k, var = 0)
Step(sc, h, v) ==
  IF Len(v.x) < h.a \/ h.a < 2 THEN "F" ELSE
  LET w == Last(v.x, h.a)
      len == Sum([z \in 1..(h.a - 1) |-> ISqrt(D2(w[z], w[z + 1]))])
      l == len * h.den
      r == h.num * (h.a - 1)
  IN Leq(l * l, r * r * Trans2(sc), sc.dims = 1 \/ len = 0)
Close(sc, h, p, q) == LET d == D2(p, q) IN Leq(d * h.den * h.den, h.num * h.num * Trans2(sc), sc.dims = 1 \/ d = 0)
Dist(sc, h, v) ==
  LET to == {o \in (IF h.all = 1 THEN 1..Len(sc.opts) ELSE {sc.hunter}) : o # sc.victim /\ sc.opts[o].x # <<>>
                  /\ (sc.file = 1 \/ o \notin Range(sc.cleared))}
      as == {Close(sc, h, sc.opts[o].x[Len(sc.opts[o].x)], v.x[Len(v.x)]) : o \in to}
  IN IF "T" \in as THEN "T" ELSE IF "?" \in as THEN "?" ELSE "F"
Want(sc, h, v) ==
  CASE h.k = "min" -> B(Len(v.fx) >= h.a)
    [] h.k = "best" -> Best(sc, h, v)
    [] h.k = "evals" -> Evals(sc, h, v)
    [] h.k = "step" -> Step(sc, h, v)
    [] h.k = "dist" -> Dist(sc, h, v)
    [] h.k = "invalid" -> B(Len(v.fx) >= h.a /\ \A z \in Range(Last(v.fx, h.a)) : ~Fin(z))
    [] h.k = "type" -> B(v.type = h.t)

\* kills expected in n draws when the chance of survival is p/q; tolerance 6 sigma
Tol(n) == 6 * 20
Draws(n, p, q, e) == LET surv == (n * p) \div q IN Abs((n - surv) - e.kills) <= Tol(n)
Time(sc, h, v, e) ==
  LET nh == Len(sc.opts[sc.hunter].fx)
      p == nh * h.den
      q == Len(v.fx) * h.num       \* survival: (nh / nv) / crit
  IN IF p >= q THEN e.kills = 0 ELSE Draws(e.n, p, q, e)
Pow(a, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN a ELSE IF n = 2 THEN a * a ELSE a * a * a
Value(sc, h, v, e) ==
  LET fh == Min(sc.opts[sc.hunter].fx)
      fv == LET m == Min(v.fx) IN IF m = NAN THEN INF ELSE m
  IN IF fh = 0 \/ fv <= fh \/ ~Fin(fh) THEN e.kills = 0 \/ ~Fin(fh)
     ELSE IF fv = INF THEN e.kills = e.n
     ELSE LET d == fv - fh
              lo == d \div Abs(fh)
              hi == IF d % Abs(fh) = 0 THEN lo ELSE lo + 1
              klo == IF lo > 3 THEN 0 ELSE e.n - (e.n * Pow(h.num, lo)) \div Pow(h.den, lo)
              khi == IF hi > 3 THEN e.n ELSE e.n - (e.n * Pow(h.num, hi)) \div Pow(h.den, hi)
              kl == IF lo > 3 THEN e.n - (e.n * Pow(h.num, 3)) \div Pow(h.den, 3) ELSE klo
          IN e.kills >= kl - Tol(e.n) /\ e.kills <= khi + Tol(e.n)

HStart(t) == [i |-> 0, bad |-> {}]
HDo(x, e) ==
  IF e.ev /= "hunt" THEN x ELSE
  LET sc == Traces[tr].sc
      h == sc.hs[e.j]
      v == sc.opts[sc.victim]
      y == F(x, e.odd = 0, "P13", "last result is not the answer")
  IN IF h.k = "time" THEN F(y, Time(sc, h, v, e), "P13", "wrong chance of TimeAnnealing")
     ELSE IF h.k = "value" THEN F(y, Value(sc, h, v, e), "P13", "wrong chance of ValueAnnealing")
     ELSE LET w == Want(sc, h, v) IN
          F(y, w = "?" \/ e.kills = (IF w = "T" THEN e.n ELSE 0), "P13", "wrong answer of " \o h.k)
====
