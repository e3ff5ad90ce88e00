---- MODULE ChkTrace ----
(* P07. The checkpoint directory before and after one attempt to make a checkpoint. A file has a name, a content (id),   *)
(* an age rank (m), says whether its name is that of a checkpoint (ck) and which index it carries (ix, -1: none).       *)
EXTENDS Monitor

KStart(t) == [i |-> 0, bad |-> {}]
SS(q) == {q[j] : j \in 1..Len(q)}
Content(fs) == {<<f.n, f.id>> : f \in fs}
(* the k newest of a set of checkpoints *)
Newest(fs, k) == {f \in fs : Cardinality({g \in fs : g.m > f.m}) < k}
MaxIx(fs) == LET I == {f.ix : f \in fs} \cup {-1} IN CHOOSE m \in I : \A j \in I : j <= m
KDo(x, e) ==
  IF e.ev /= "ck" THEN x ELSE
  LET b == SS(e.before)
      a == SS(e.after)
      made == Content(a) \ Content(b)
      fail == made = {}
      x1 == F(x, e.must = 1 => fail, "P07", "a checkpoint which could not be completed left something behind")
      x2 == F(x1, e.ok = 1 => ~fail, "P07", "no checkpoint was made although nothing failed")
      x3 == F(x2, fail => Content(a) = Content(b), "P07", "a failed checkpoint removed an earlier one")
      x4 == F(x3, e.kbd = 1 \/ ~fail \/ ((e.err /= "") <=> e.rcf = 1), "P07", "a failed checkpoint must end the run exactly if the user asked for it")
      x5 == F(x4, fail \/ (e.err = "" /\ e.good = 1), "P07", "the new checkpoint cannot be loaded")
  IN IF fail \/ e.must = 1 THEN x5
     ELSE IF Cardinality(made) /= 1 THEN F(x5, FALSE, "P07", "a checkpoint made more than one file")
     ELSE LET nn == (CHOOSE c \in made : TRUE)[1]
              new == CHOOSE f \in a : f.n = nn
              others == {f \in b : f.ck = 1 /\ f.n /= nn}
              keep == IF e.kp < 0 THEN others ELSE Newest(others, e.kp)
              y1 == F(x5, new.ck = 1, "P07", "the name of the checkpoint does not match its format")
              y2 == F(y1, e.cnt = 0 \/ new.ix = MaxIx(b) + 1, "P07", "checkpoints are not counted upwards")
              y3 == F(y2, \A f \in b : f.ck = 0 => <<f.n, f.id>> \in Content(a), "P07", "a file which is not a checkpoint was removed")
              y4 == F(y3, {f.n : f \in {g \in a : g.ck = 1}} \ {nn} = {f.n : f \in keep}, "P07", "wrong earlier checkpoints were kept")
          IN F(y4, \A f \in keep : <<f.n, f.id>> \in Content(a), "P07", "an earlier checkpoint was changed")
====
