---- MODULE BenchTrace ----
(* P30. What a benchmark function states about itself agrees with its values (in thousandths).                           *)
EXTENDS Monitor

BIG == 2000000000
Abs(v) == IF v < 0 THEN -v ELSE v
Eq(a, b) == a = b \/ (Abs(a) < 1000000000 /\ Abs(b) < 1000000000 /\ Abs(a - b) <= 2 + Abs(b) \div 2000)
\* a minimum which is only known, or only estimated, for some numbers of dimensions
Known(sc) == CASE sc.name = "LennardJones" -> sc.dims = 3
               [] sc.name = "Michalewicz" -> sc.dims \in {2, 5, 10}
               [] sc.name = "Shubert" -> sc.dims <= 2
               [] OTHER -> TRUE
BStart(t) == [i |-> 0, bad |-> {}, mf |-> 0, sure |-> 0, off |-> 0, shifted |-> 0]
BDo(x, e) ==
  LET sc == Traces[tr].sc IN
  CASE e.ev = "states" ->
         LET a == F(x, e.dims = e.n /\ e.nb = e.n /\ e.order = 1, "P30", "bounds do not fit the dimensions")
             b == F(a, e.wx = 1 \/ e.inb = 1, "P30", "stated location of the minimum outside the bounds")
             c == F(b, e.wx = 1 \/ e.wf = 1 \/ e.nofx = 1 \/ Eq(e.at, e.mf), "P30", "stated minimum not attained where stated")
             d == F(c, (e.nofx = 0) = Known(sc), "P30", "a known minimum not stated or an unknown one stated")
             g == F(d, e.nofx = 1 \/ sc.shift = 0 \/ e.gno = 0, "P30", "the shifted function does not know its minimum")
         IN [g EXCEPT !.mf = e.mf, !.sure = IF e.nofx = 0 /\ e.wf = 0 THEN 1 ELSE 0,
                      !.off = e.gf - e.mf, !.shifted = IF sc.shift = 1 /\ e.nofx = 0 THEN 1 ELSE 0]
    [] e.ev = "value" ->
         LET a == F(x, e.one = 1 /\ e.v # BIG + 1, "P30", "not one number")
             b == F(a, (sc.name = "Rana" /\ sc.known = 0) \/ x.sure = 0 \/ e.v >= x.mf - 2 - Abs(x.mf) \div 2000, "P30", "a vector within the bounds is below the stated minimum")
             c == F(b, e.v = e.w \/ Eq(e.v, e.w), "P30", "another value for a list or a second time")
             d == F(c, e.kept = 1, "P30", "the vector was changed")
         IN F(d, x.shifted = 0 \/ Abs(e.v) > 1000000000 \/ Eq(e.s - e.v, x.off), "P30", "not shifted as stated")
    [] e.ev = "gradient" -> F(x, e.off <= 20, "P30", "the derivatives given are not those of the function")
    [] e.ev = "slept" -> F(x, e.ms >= e.want - 1 /\ e.delay = e.want, "P30", "delay not observed")
    [] OTHER -> x
====
