---- MODULE BoolTrace ----
(* P11. The value of a combination is that of the Boolean expression, evaluated lazily from left to right. *)
EXTENDS Monitor

\* m: [cnt |-> calls so far of each leaf, last |-> result per node, called |-> leaves evaluated, v |-> value]
RECURSIVE Ev(_, _, _)
Ev(t, j, m) ==
  LET nd == t.sc.nodes[j] IN
  IF nd.k = "leaf"
  THEN LET vals == t.sc.leaves[nd.n]
           v == vals[(m.cnt[nd.n] % Len(vals)) + 1]
       IN [m EXCEPT !.cnt[nd.n] = @ + 1, !.last[j] = v, !.called = Append(@, nd.n), !.v = v]
  ELSE LET a == Ev(t, nd.l, m)
           b == IF (nd.k = "|" /\ a.v = "T") \/ (nd.k = "&" /\ a.v = "F") THEN a ELSE Ev(t, nd.r, a)
       IN [b EXCEPT !.last[j] = b.v]
RECURSIVE Sub(_, _)
Sub(t, j) == {j} \cup (IF t.sc.nodes[j].k = "leaf" THEN {} ELSE Sub(t, t.sc.nodes[j].l) \cup Sub(t, t.sc.nodes[j].r))
RECURSIVE Leaves(_, _)
Leaves(t, j) == LET nd == t.sc.nodes[j] IN IF nd.k = "leaf" THEN <<nd.n>> ELSE Leaves(t, nd.l) \o Leaves(t, nd.r)
Word(v) == CASE v = "T" -> "True" [] v = "F" -> "False" [] OTHER -> "None"
RECURSIVE Text(_, _, _, _)
Text(t, j, last, res) ==
  LET nd == t.sc.nodes[j] IN
  IF nd.k = "leaf" THEN "Leaf(n=" \o ToString(nd.n) \o ")" \o (IF res THEN "=" \o Word(last[j]) ELSE "")
  ELSE "[" \o Text(t, nd.l, last, res) \o nd.k \o Text(t, nd.r, last, res) \o "]"

BStart(t) == [i |-> 0, bad |-> {}, t |-> tr, cnt |-> [z \in 1..Len(t.sc.leaves) |-> 0]]
BDo(x, e) ==
  IF e.ev /= "eval" THEN x ELSE
  LET t == Traces[tr]
      m == Ev(t, e.node, [cnt |-> x.cnt, last |-> [z \in 1..Len(t.sc.nodes) |-> "N"], called |-> <<>>, v |-> "N"])
      a == F(x, e.ret = m.v, "P11", "wrong value of the combination")
      b == F(a, e.called = m.called, "P11", "not evaluated lazily from left to right")
      c == F(b, \A z \in Sub(t, e.node) : e.last[z] = m.last[z], "P11", "last results are not those of this evaluation")
      d == F(c, e.text = Text(t, e.node, m.last, TRUE), "P11", "printed results are not those of this evaluation")
      f == F(d, e.plain = Text(t, e.node, m.last, FALSE), "P11", "printed form is not the expression")
      g == F(f, e.leaves = Leaves(t, e.node), "P11", "iterating does not give the leaves in order")
  IN [g EXCEPT !.cnt = m.cnt]
====
