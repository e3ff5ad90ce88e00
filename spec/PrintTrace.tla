---- MODULE PrintTrace ----
(* P22. d = 0 is the original stream, otherwise the optimizer whose file it is; n: the numbered pieces which were printed. *)
EXTENDS Monitor

PStart(t) == [i |-> 0, bad |-> {}, log |-> <<>>]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q).n \o Flat(Tail(q))
Went(x, d, z) == Flat(SelectSeq(x.log, LAMBDA r : r.d = d /\ r.z = z))
Set(q) == {q[j] : j \in 1..Len(q)}
PDo(x, e) ==
  LET sc == Traces[tr].sc
      redir == {sc.ts[j].o : j \in {j \in 1..Len(sc.ts) : sc.ts[j].redir = 1 /\ (sc.setup = 1 \/ sc.kind = "proc")}}
  IN
  CASE e.ev = "op" -> [x EXCEPT !.log = Append(@, [d |-> e.d, z |-> e.s, n |-> e.n])]
    [] e.ev = "file" ->
         LET a == F(x, (e.there = 1) <=> (e.o \in redir), "P22", "print file missing or not wanted")
             want == IF e.o \in redir THEN Went(x, e.o, e.s) ELSE <<>>
             b == F(a, e.n = want, "P22", "output of an optimizer lost, reordered or mixed")
         IN F(b, e.exact = 1, "P22", "output of an optimizer was changed")
    [] e.ev = "orig" -> F(F(x, Set(e.n) = Set(Went(x, 0, e.s)) /\ (e.s = "err" \/ e.n = Went(x, 0, e.s)), "P22", "output on the original stream wrong"),
                          e.exact = 1, "P22", "output on the original stream was changed")
    [] e.ev = "ended" -> F(x, e.code = e.want, "P22/P05", "exit code of a thread wrong")
    [] e.ev = "fin" -> F(x, e.odd = 0, "P22", "unexpected print files")
    [] OTHER -> x
====
