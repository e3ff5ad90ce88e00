---- MODULE QueueTrace ----
(* P02. What a producer put without an error is obtained exactly once and in its order; the queue is never longer than *)
(* its size; while there is room nothing is held back; a full queue makes it hand over chunks of limited size.         *)
(* Producers which meet the full queue at the same moment may each add one result to the first chunk.                *)
EXTENDS Monitor

QStart(t) == [i |-> 0, bad |-> {}, size |-> t.sc.size, chunk |-> (IF t.sc.chunk < 2 THEN 2 ELSE t.sc.chunk) + (IF t.sc.mode = "seq" THEN 0 ELSE Len(t.sc.prods) - 1), seq |-> t.sc.mode = "seq",
              ok |-> {}, begun |-> {}, failed |-> {}, got |-> <<>>, last |-> [p \in 1..9 |-> 0], odd |-> 0,
              fast |-> 0, nq |-> 0]

GetOne(x, it) ==
  LET p == it[1]  k == it[2]
      x1 == F(x, <<p, k>> \in x.begun, "P02", "obtained something never put")
      x2 == F(x1, \A z \in 1..Len(x.got) : x.got[z] /= <<p, k>>, "P02", "obtained twice")
      x3 == F(x2, k > x.last[p] /\ \A j \in (x.last[p] + 1)..(k - 1) : <<p, j>> \in x.failed, "P02", "lost or out of order")
  IN [x3 EXCEPT !.got = Append(@, <<p, k>>), !.last[p] = k]
RECURSIVE GetAll(_, _)
GetAll(x, q) == IF q = <<>> THEN x ELSE GetAll(GetOne(x, Head(q)), Tail(q))

Size(x, e) == F(x, e.sz <= x.size, "P02", "more entries than the size of the queue")
Outstanding(x) == {z \in x.ok : \A j \in 1..Len(x.got) : x.got[j] /= z}

QDo(x, e) ==
  CASE e.ev = "beg" -> [x EXCEPT !.begun = @ \cup {<<e.p, e.k>>}]
    [] e.ev = "end" ->
         LET y == IF e.ok = 1 THEN [x EXCEPT !.ok = @ \cup {<<e.p, e.k>>}] ELSE [x EXCEPT !.failed = @ \cup {<<e.p, e.k>>}]
             a == F(y, e.op \in {"putnb", "putto"} \/ e.ok = 1, "P02", "a put which may wait was refused")
             \* sequential use: until the queue was first full, everything goes straight into the queue
             b == F(a, ~(x.seq /\ x.fast = 0 /\ x.nq < x.size /\ e.op \in {"nowait", "put", "putnb"}) \/ (e.ok = 1 /\ e.sz = x.nq + 1),
                    "P02", "held back although the queue had room")
             c == F(b, ~(x.seq /\ e.op = "nowait" /\ x.nq >= x.size) \/ e.sz = x.nq, "P02", "queue longer than before although full")
         IN [Size(c, e) EXCEPT !.odd = IF e.ok = 0 \/ e.op = "incache" THEN 1 ELSE @,
                              !.fast = IF e.op = "incache" \/ (e.op = "nowait" /\ x.nq >= x.size) THEN 1 ELSE @, !.nq = e.sz]
    [] e.ev = "get" ->
         LET y == F(x, x.odd = 1 \/ Len(e.it) <= x.chunk, "P02", "chunk larger than configured")
             z == F(y, Len(e.it) > 0 \/ x.odd = 1 \/ ~x.seq, "P02", "empty chunk")
         IN [Size(GetAll(z, e.it), e) EXCEPT !.nq = e.sz]
    [] e.ev = "flush" -> [Size(F(x, e.ok = 1 \/ e.sz >= x.size, "P02", "flush refused although the queue had room"), e)
                           EXCEPT !.nq = e.sz, !.odd = 1]
    [] e.ev = "empty" -> F(x, x.nq = 0, "P02", "queue said to be empty")
    [] e.ev = "state" ->
         LET y == F(x, (e.em = 1 /\ e.cache = 0) => Outstanding(x) = {}, "P02", "queue seems exhausted but results are outstanding")
         IN F(y, (Outstanding(x) = {} /\ x.odd = 0) => (e.em = 1 \/ e.sz > 0) /\ e.cache = 0, "P02", "nothing outstanding but a cache in use")
    [] e.ev = "over" -> F(F(x, Outstanding(x) = {}, "P02", "results were lost"), e.cache = 0 /\ e.em = 1, "P02", "queue not exhausted")
    [] e.ev = "stuck" -> F(x, FALSE, "P02", "a put or get never returns")
    [] OTHER -> x
====
