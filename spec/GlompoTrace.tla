---- MODULE GlompoTrace ----
(* Trace monitor. Each recorded run of the real manager is one behaviour; the state below is the abstract state of the  *)
(* run, computed only from what the environment saw (evaluations made, messages and results exchanged, user components  *)
(* called, processes started and ended). A step that the rules of GlompoCore do not allow is added to `bad`.            *)
EXTENDS GlompoCore, TLC, TLCExt, Json, IOUtils, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, s

Ev(t, j) == Traces[t].ev[j]
N(t) == Traces[t].n

NewOpt == [w |-> 0, pst |-> 0, code |-> 0, dc |-> 0, xe |-> 0, ev |-> <<>>, ids |-> <<>>, best |-> NoBest, key0 |-> 0,
           m |-> "", kill |-> 0, tk |-> 0, told |-> 0, forced |-> 0, sent |-> <<>>, rec |-> <<>>, lf |-> 0, held |-> 0,
           paused |-> 0, idx |-> 0, cls |-> "", be |-> "", call |-> 0, gen |-> 0, crt |-> 0, term |-> 0, put |-> 0,
           sen |-> 0, pend |-> 0, pe |-> <<0, 0, 0>>, dead |-> 0, re |-> 0, sk |-> 0, ran |-> 0, pq |-> 0, gq |-> 0, w0 |-> 0, ks |-> 0, sm |-> "", dt |-> 0]

NoPh == [k |-> "none", allow |-> {}, done |-> {}, vi |-> 0]

Init0(n) == [i |-> 0, bad |-> {}, c |-> [jobs |-> 0], f |-> 0, h |-> 0, lh |-> 0, best |-> NoBest, n |-> 0, sp |-> 1, cr |-> 0,
             o |-> [z \in 1..n |-> NewOpt], todo |-> <<>>, ph |-> NoPh, al |-> {}, cv |-> 0, exit |-> "no", pre |-> 0,
             ns |-> 0, inck |-> 0, cksave |-> {}, ckbadsave |-> 0, ckdied |-> 0, ckal |-> {}, cksen |-> {}, saved |-> <<>>, nck |-> 0,
             res |-> 0, sel |-> 0, selw |-> 0, rnd |-> 0, fill |-> 0, got |-> 0, tconv |-> 0, tprev |-> 0,
             alc |-> {}, files |-> <<>>, fw |-> 0, ck |-> 0, deadprev |-> 0, spur |-> 0, ckx |-> "no", sch |-> {<<0, 0>>},
             nckx |-> 0, fkind |-> "", gn |-> 0, pack |-> {}, ckfiled |-> {}, cki |-> 0, phase |-> 0, dexit |-> 0,
             fin |-> 0, started |-> 0, lastn |-> 0, ckkp |-> -1, f0 |-> 0, lossy |-> 0, gone |-> {}, used |-> 0, t0 |-> 0, cku |-> 0, np |-> 0, nok |-> 0, plots |-> 0, tret |-> 0,
             pb |-> <<>>, vnorm |-> {}, vpause |-> {}, vchk |-> {}]

(* After a restart every rule is also part of continuing the run exactly (P06). *)
F(x, ok, tag, name) == IF ok \/ Cardinality(x.bad) > 12 THEN x
                       ELSE [x EXCEPT !.bad = @ \cup {<<IF x.res = 1 THEN "P06/" \o tag ELSE tag, name, x.i>>}]

Made(ev, cnt) == SubSeq(ev, 1, IF cnt <= Len(ev) THEN cnt ELSE Len(ev))
Opts(x) == DOMAIN x.o
Alive(x) == {z \in Opts(x) : x.o[z].pst = 1}
AliveNT(x) == {z \in Opts(x) : x.o[z].pst = 1 /\ x.o[z].term = 0}
Acc(x, z) == Len(x.o[z].ids)
Ended(x, z) == x.o[z].key0 = 1 \/ x.o[z].kill /= 0 \/ x.o[z].forced = 1
Settled(x, z) == x.o[z].pst = 2 /\ x.o[z].dc >= 2
Silent(x, z) == x.o[z].pst = 2 /\ ~Ended(x, z)
Victims(x) == {z \in Opts(x) : x.o[z].kill /= 0}
Hf(x) == x.c.hf

MgrEvents == {"conv", "sel", "gen", "pstart", "qget", "hunt", "msend", "mrecv", "ckbeg", "ckend", "ret", "create",
              "term", "eset"}
IsMgr(e) == /\ e.ev \in MgrEvents
            /\ (e.ev \in {"term", "eset"} => e.by = 0)

-----------------------------------------------------------------------------------------------------------------------
(* Accepting results. `todo` holds what the manager took from the queue but has not yet acted on; items are accepted    *)
(* one at a time, each may have to be shared (P19) and may trigger a hunt (P04) before the next one is accepted.        *)
AcceptOne(x, it) ==
  LET o == it[1]  k == it[2]  v == it[3]
      known == o \in Opts(x)
      nid == x.f + 1
      x1 == F(x, known /\ o = it[4], "P01", "result of unknown optimizer or wrong owner")
      x2 == F(x1, ~known \/ k = Acc(x1, o) + 1, "P01/P02", "result lost, duplicated or out of order")
      x3 == F(x2, ~known \/ (k <= Len(x2.o[o].ev) /\ k >= 1 /\ x2.o[o].ev[k] = v), "P01",
              "result differs from the evaluation made")
      ob == IF known THEN Improve(x3.o[o].best, o, k, v, nid) ELSE NoBest
      nb == Improve(x3.best, o, k, v, nid)
      imp == nb /= x3.best
      x4 == IF known
            THEN [x3 EXCEPT !.f = nid, !.best = nb, !.got = 1,
                            !.o[o].ids = Append(@, nid), !.o[o].best = ob]
            ELSE x3
      tg == (x4.al \cup Alive(x4)) \ {o}
  IN IF imp /\ x4.c.share = 1 /\ tg /= {}
     THEN [x4 EXCEPT !.ph = [k |-> "share", allow |-> tg, done |-> {}, vi |-> 0]]
     ELSE x4

HuntSet(x) == {z \in Opts(x) : /\ MayBeHunted(x.o[z].pst /= 0, Acc(x, z), Ended(x, z), z, x.best)
                               /\ ~(Settled(x, z))
                               /\ x.o[z].dead = 0}
OpenHunt(x) ==
  IF HuntDue(x.c.hunter, x.c.hf, x.f, x.lh, x.best) /\ x.got = 1
  THEN LET y == [x EXCEPT !.h = @ + 1, !.lh = x.f] IN
       IF HuntSet(y) = {} THEN y ELSE [y EXCEPT !.ph = [k |-> "hunt", allow |-> HuntSet(y), done |-> {}, vi |-> 0]]
  ELSE x

RECURSIVE Drain(_)
Drain(x) ==
  IF x.ph.k /= "none" \/ x.todo = <<>> THEN x
  ELSE LET it == Head(x.todo)
           y == [x EXCEPT !.todo = Tail(@)]
       IN IF it[2] = 0
          THEN \* end of results of an optimizer
               LET o == it[1] IN
               IF o \in Opts(y)
               THEN Drain([F(y, y.o[o].kill /= 0 \/ Acc(y, o) = y.o[o].put, "P01/P02",
                             "results before the end of an optimizer are missing")
                            EXCEPT !.o[o].sen = 1, !.cksen = IF y.inck = 1 THEN @ \cup {o} ELSE @])
               ELSE Drain(y)
          ELSE IF it[1] \in Opts(y) /\ y.o[it[1]].kill /= 0 THEN Drain(y)
          ELSE LET z == AcceptOne(y, it)
               IN IF z.ph.k = "share" THEN z ELSE Drain(OpenHunt(z))

(* Close the phases which do not continue with event e. *)
RECURSIVE Settle(_, _)
Settle(x, e) ==
  IF x.ph.k = "kill"
  THEN IF (e.ev = "msend" /\ e.key = 1 /\ e.o = x.ph.vi) \/ (e.ev = "term" /\ e.o = x.ph.vi) THEN x
       ELSE Settle([F(x, FALSE, "P04/P17", "no order to stop sent to a killed optimizer")
                    EXCEPT !.ph.k = IF x.ph.allow = {} THEN "none" ELSE "hunt"], e)
  ELSE IF x.ph.k = "share"
  THEN IF e.ev = "msend" /\ e.key = 4 /\ e.o \in x.ph.allow \ x.ph.done THEN x
       ELSE LET miss == {z \in x.ph.allow \ x.ph.done : x.o[z].pst = 1 /\ x.o[z].term = 0}
                y == [F(x, miss = {}, "P19", "improvement not sent to a living optimizer") EXCEPT !.ph = NoPh]
            IN Settle(Drain(OpenHunt(y)), e)
  ELSE IF x.ph.k = "hunt"
  THEN IF e.ev = "hunt" /\ e.vi \in x.ph.allow \ x.ph.done THEN x
       ELSE LET miss == {z \in x.ph.allow \ x.ph.done : x.o[z].pst = 1 /\ x.o[z].term = 0 /\ ~Ended(x, z)}
                y == [F(x, miss = {}, "P04", "optimizer not hunted in a hunt which was due") EXCEPT !.ph = NoPh]
            IN Settle(Drain(y), e)
  ELSE IF x.todo /= <<>> THEN Settle(Drain(x), e)
  ELSE x

-----------------------------------------------------------------------------------------------------------------------
\* the log keeps everything, unless it was started later by a restart which asked for more than was kept before
Whole(x) == x.c.summary >= 2 /\ x.lossy = 0

(* What user components see (P01, P04, P05). *)
CLow(x)  == Cardinality({z \in Opts(x) : x.o[z].key0 = 1 \/ (Silent(x, z) /\ x.o[z].code = 0 /\ (Settled(x, z) \/ x.o[z].dead = 1))})
CHigh(x) == Cardinality({z \in Opts(x) : x.o[z].key0 = 1 \/ (Silent(x, z) /\ x.o[z].code = 0 /\ x.o[z].xe = 0)})

Also(where, tag) == CASE where = "exit condition" -> "P10/" \o tag
                      [] where = "end" -> "P09/" \o tag
                      [] where = "hunter" -> "P04/" \o tag
                      [] where = "loading" -> "P06/" \o tag
                      [] OTHER -> tag
SnapOK(x, q, where) ==
  LET inc == Incumbent(x.f, x.best)
      x1 == F(x, q.f = x.f, Also(where, "P01"), "evaluation counter wrong at " \o where)
      x2 == F(x1, q.lf = x.f, Also(where, "P01/P15"), "log length wrong at " \o where)
      x3 == F(x2, q.bo = inc.bo /\ q.bv = inc.bv /\ q.xo = inc.xo /\ q.xk = inc.xk, Also(where, "P01"), "incumbent wrong at " \o where)
      x4 == F(x3, q.n = x.n, Also(where, "P05"), "number of optimizers wrong at " \o where)
      x5 == F(x4, q.h = x.h, Also(where, "P04"), "number of hunts wrong at " \o where)
      x6 == F(x5, Range(q.vic) = Victims(x), Also(where, "P04/P05"), "set of killed optimizers wrong at " \o where)
      x7 == F(x6, q.sp = x.sp, Also(where, "P03"), "spawning flag wrong at " \o where)
      x8 == F(x7, q.cr = x.cr, Also(where, "P14"), "crash flag wrong at " \o where)
  IN F(x8, CLow(x) <= q.c /\ q.c <= CHigh(x), Also(where, "P05"), "number of converged optimizers wrong at " \o where)

(* P05: permitted end conditions of an optimizer *)
EndSet(x, z, final) ==
  LET q == x.o[z]
      ex == ExitEnd(x.exit = "crash")
      own == IF q.ks = 1 THEN "own:" \o q.sm ELSE OwnEnd(q.code)  \* what it announced before it ended must have been read
  IN IF q.key0 = 1 THEN {"own:" \o q.m}
     ELSE IF q.kill > 0 THEN IF q.forced = 1 THEN {"forced"} ELSE {"killed"}
     ELSE IF q.kill < 0 THEN IF q.forced = 1 THEN {"forced"} ELSE {"user"}
     ELSE IF q.forced = 1 THEN {"forced"}
     ELSE IF q.pst = 2
     THEN IF Settled(x, z) \/ q.dead = 1 THEN {own}
          ELSE IF final THEN (IF q.xe = 1 THEN {ex} ELSE {own, ex})
          ELSE {own, "none"}
     ELSE IF q.pst = 0 /\ q.re = 0 THEN {ex, "none"}
     ELSE IF final THEN {ex} ELSE {"none"}

SeqAt(q, z) == IF z <= Len(q) THEN q[z] ELSE "?"
EndsOK(x, en) ==
  F(x, Len(en) = x.n /\ \A z \in 1..Len(en) : z \in Opts(x) => (en[z] \in EndSet(x, z, FALSE) \/ (en[z] = "cleared" /\ x.o[z].pst = 2)),
    "P05", "end condition of an optimizer wrong during the run")

-----------------------------------------------------------------------------------------------------------------------
(* The log (P15, P05). L is a dump of everything the log says. *)
\* a log file which was started anew when resuming holds what was accepted since
Since(x, z) == Cardinality({j \in 1..Acc(x, z) : x.o[z].ids[j] <= x.f0}) + 1
\* P29: what the task returned besides its value; it is determined by the point and the column
Code(j, kind, z, k) == LET c == 10000 * j + 100 * z + k IN IF kind = "bool" THEN c % 2 ELSE IF kind = "none" THEN 0 ELSE c
Detailed(x, z) == x.c.det = 1 \/ x.o[z].dt = 1
Columns(x, z, frm, cnt) == IF ~Detailed(x, z) THEN <<>>
                           ELSE [j \in 1..Len(x.c.names) |->
                                   <<x.c.names[j][1], [k \in 1..(cnt + 1 - frm) |-> Code(j, x.c.names[j][2], z, k + frm - 1)]>>]
LogRec(x, r, final, full) ==
  LET z == r.o
      q == x.o[z]
      cnt == Acc(x, z)
      cl == r.cl = 1 /\ ~full
      x0 == F(x, cl => (q.pst = 2 /\ x.best.o /= z), "P15", "log of an optimizer was cleared too early")
      x1 == F(x0, cl \/ r.cl = 0, "P15", "log of an optimizer is missing")
      x2 == F(x1, cl \/ (r.len = cnt /\ Len(r.hist) = cnt), "P15/P01", "length of the log of an optimizer wrong")
      x3 == F(x2, cl \/ (r.hist = Made(q.ev, cnt) /\ r.ks = [j \in 1..cnt |-> j] /\ r.xos = [j \in 1..cnt |-> z]),
              "P15/P01", "evaluations in the log of an optimizer wrong")
      x4 == F(x3, cl \/ r.ids = q.ids, "P15/P01", "numbering in the log of an optimizer wrong")
      x5 == F(x4, cl \/ r.best = (IF q.best.o = 0 THEN <<z, 0, INF, 0>> ELSE <<z, q.best.k, q.best.v, q.best.id>>),
              "P15", "best evaluation of an optimizer wrong in the log")
      x6 == F(x5, cl \/ r.end \in EndSet(x, z, final), "P05", "end condition of an optimizer wrong")
      x7 == F(x6, cl \/ ~final \/ r.t = 1 \/ q.pst = 0, "P05", "an optimizer has no stop time")
      x8 == F(x7, cl \/ r.end /= "killed" \/ r.hunter = q.kill, "P05", "recorded hunter wrong")
  IN F(x8, cl \/ "cols" \notin DOMAIN r \/ r.cols < 0 \/ IF Detailed(x, z) THEN r.cols = 1 /\ r.xs = Columns(x, z, Since(x, z), cnt) ELSE r.cols = 0,
       "P29", "details of the evaluations wrong in the log")
RECURSIVE LogAll(_, _, _, _)
LogAll(x, L, final, full) == IF L = <<>> THEN x
                             ELSE LogAll(IF Head(L).o \in Opts(x) THEN LogRec(x, Head(L), final, full) ELSE x, Tail(L), final, full)
BestT(x) == <<x.best.o, x.best.k, x.best.v, x.best.id>>

(* P14: messages *)
Own(ms) == SelectSeq(ms, LAMBDA m : m[2] = 0)
Texts(ms) == [j \in 1..Len(ms) |-> ms[j][1]]
MsgsOK(x, z, ms) == F(x, Texts(Own(ms)) = x.o[z].rec, "P14", "recorded messages differ from those sent")

-----------------------------------------------------------------------------------------------------------------------
(* Events of the environment *)
OnEval(x, e) ==
  LET x1 == F(x, e.k = Len(x.o[e.o].ev) + 1, "HARNESS", "evaluation out of order")
      x2 == F(x1, x.o[e.o].held = 0 /\ x.o[e.o].paused = 0, "P08/P06", "evaluation made while paused for a checkpoint")
      x3 == F(x2, e.det = IF Detailed(x, e.o) THEN 1 ELSE 0, "P29", "evaluated in detail without being asked to, or the reverse")
  IN [x3 EXCEPT !.o[e.o].ev = Append(@, e.v)]

OnPut(w, e) == LET x == [w EXCEPT !.o[e.o].pq = IF e.ok = 1 THEN @ + 1 ELSE @] IN
               IF e.ok = 0 THEN x
               ELSE IF e.k = 0 THEN x
               ELSE [F(x, e.k = x.o[e.o].put + 1, "P01/P02", "evaluation not reported") EXCEPT !.o[e.o].put = e.k]

PutDone(x, o) == [x EXCEPT !.o[o].pe = <<0, 0, 0>>]

(* P14: an optimizer executes each manager signal when it reads it, before doing anything else *)
OnORecv(x, e) ==
  LET x1 == F(x, x.o[e.o].pend = 0, "P14", "manager signal not executed")
  IN [x1 EXCEPT !.o[e.o].pend = IF e.key \in {0, 1, 2, 4} THEN e.key + 1 ELSE 0,
                !.o[e.o].pe = IF e.key = 4 THEN <<e.xo, e.xk, e.v>> ELSE <<0, 0, 0>>]
Exec(x, o, key, name) ==
  LET x1 == F(x, x.o[o].pend = key + 1, "P14", name \o " without a matching signal")
  IN [x1 EXCEPT !.o[o].pend = 0]
OnInject(x, e) ==
  LET x1 == F(x, x.o[e.o].pend /= 5 \/ x.o[e.o].pe = <<e.xo, e.xk, e.v>>, "P19/P14", "wrong point injected")
  IN Exec(x1, e.o, 4, "inject")
OnSave(x, e) ==
  LET x1 == Exec(x, e.o, 0, "save")
      x2 == F(F(x1, x.inck = 1, "P08", "state saved outside of a checkpoint"),
              Len(x.o[e.o].ev) = e.k, "HARNESS", "optimizer saved out of step")
  IN [x2 EXCEPT !.cksave = @ \cup {<<e.o, e.k>>}, !.o[e.o].held = 1,
                !.ckbadsave = IF e.how \in {"raise", "nofile"} \/ (e.how = "die" /\ x.c.proc = 1) THEN 1 ELSE @]

OnOSend(x, e) ==
  IF e.key = 1 THEN [Exec(x, e.o, 2, "pause") EXCEPT !.o[e.o].held = 1]
  ELSE IF e.key = 9 THEN [x EXCEPT !.o[e.o].sent = Append(@, e.m)]
  ELSE IF e.key = 0 /\ "lost" \notin DOMAIN e THEN [x EXCEPT !.o[e.o].ks = 1, !.o[e.o].sm = e.m]
  ELSE x

OnPExit(x, e) ==
  IF e.o \notin Opts(x) THEN x
  ELSE [F(x, e.code <= 0 \/ x.o[e.o].ran = 1, "P22/P09", "optimizer could not be run") EXCEPT !.o[e.o].pst = 2, !.o[e.o].code = e.code, !.o[e.o].dc = 0,
                 !.o[e.o].xe = IF x.exit /= "no" THEN 1 ELSE 0,
                 !.o[e.o].held = 0, !.o[e.o].paused = 0, !.ckdied = IF x.inck = 1 THEN 1 ELSE @]

-----------------------------------------------------------------------------------------------------------------------
(* Events of the manager *)

(* P10/P24: entering the exit phase *)
EnterExit(x, e) ==
  IF x.cv = 1 /\ x.exit = "no" /\ x.inck = 0 /\ e.ev /= "ckbeg"
  THEN [F(x, x.nckx = 0 \/ x.spur = 1, "P24", "checkpoint at convergence not made") EXCEPT !.exit = "conv"]
  ELSE x

(* P24: a scheduled checkpoint directly follows the exit condition *)
(* What is known of the two schedules: pairs <<evaluations, time>> of the last checkpoint each of them caused. Near the    *)
(* limit of time it cannot be seen which of the two was the cause, then there are several pairs.                          *)
ByIter(x, p) == x.c.ck = 1 /\ x.f - p[1] > x.c.itf
ByTime(x, p, t) == IF x.c.ck = 0 THEN "no" ELSE IF t - p[2] > x.c.tf + 30 THEN "must" ELSE IF t - p[2] < x.c.tf - 30 THEN "no" ELSE "may"
DueBy(x, p, t) == IF ByIter(x, p) THEN "must" ELSE ByTime(x, p, t)
AfterDue(x, p, t) == LET w == ByTime(x, p, t)
                     IN (IF w = "no" THEN {} ELSE {<<p[1], t>>}) \cup (IF w # "must" /\ ByIter(x, p) THEN {<<x.f, p[2]>>} ELSE {})
NotDue(x) == LET q == {p \in x.sch : DueBy(x, p, x.tconv) # "must"} IN IF q = {} THEN x.sch ELSE q
CkDue(x, e) ==
  IF x.ckx \in {"must", "may"} /\ ~(e.ev = "ckbeg")
  THEN [F(x, x.ckx /= "must", "P24", "scheduled checkpoint not made") EXCEPT !.ckx = "no", !.sch = NotDue(x)]
  ELSE x

StopDue(x, o) == \E j \in 1..Len(x.files) : x.files[j].fo = o /\ x.files[j].st = 1
UseFile(x, o) == LET j == CHOOSE j \in 1..Len(x.files) : x.files[j].fo = o /\ x.files[j].st = 1
                 IN [x EXCEPT !.files = [y \in 1..Len(@) |-> IF @[y].fo = o THEN [@[y] EXCEPT !.st = 0] ELSE @[y]]]

(* P26: what the scope shows of an optimizer: the k-th accepted evaluation (the best so far if elitist) *)
LowOf(a, b) == IF a = NAN THEN b ELSE IF b = NAN THEN a ELSE IF b < a THEN b ELSE a
RECURSIVE LowAll(_, _)
LowAll(q, k) == IF k = 0 THEN NAN ELSE LowOf(LowAll(q, k - 1), q[k])
ShownAt(x, z, k) == <<x.o[z].ids[k], IF x.c.elite = 1 THEN LowAll(x.o[z].ev, k) ELSE x.o[z].ev[k]>>
LastShown(x, z) == IF x.c.vis = 0 \/ Acc(x, z) = 0 THEN {} ELSE {ShownAt(x, z, Acc(x, z))}
Shown(x, z) == [k \in 1..Acc(x, z) |-> ShownAt(x, z, k)]
OnScope(x, e) ==
  LET ids == {e.ids[j] : j \in 1..Len(e.ids)}
      x1 == F(x, ids \subseteq 1..x.n /\ e.n = Len(e.ids) /\ \A z \in Opts(x) : Acc(x, z) > 0 => z \in ids, "P26", "wrong curves in the scope")
      x2 == F(x1, \A j \in 1..Len(e.ids) : e.ids[j] \in Opts(x) =>
                    LET l == e.lines[j]  f == Shown(x, e.ids[j])
                    IN Len(l) <= Len(f) /\ l = SubSeq(f, Len(f) - Len(l) + 1, Len(f))
                       /\ (Len(l) < Len(f) => x.c.win > 0 /\ f[Len(f) - Len(l)][1] < x.f - x.c.win),
              "P26", "curve of an optimizer differs from its evaluations")
      Bag(q) == {q[j] : j \in 1..Len(q)}
      want == UNION {LastShown(x, z) : z \in Victims(x)}
  IN F(x2, x.c.win > 0 \/ (Bag(e.marks[1]) = want /\ Len(e.marks[1]) = Cardinality(want) /\ Bag(e.marks[2]) = x.vnorm
                          /\ Len(e.marks[2]) = Cardinality(x.vnorm) /\ Bag(e.marks[3]) = x.vpause /\ Bag(e.marks[4]) = x.vchk),
       "P26", "wrong markers in the scope")

OnMSend(w, e) ==
  LET o == e.o
      x == IF e.key = 0 THEN [w EXCEPT !.vchk = @ \cup LastShown(w, o)] ELSE w
      q == x.o[o]
  IN IF e.key = 4
     THEN LET ok == x.ph.k = "share" /\ o \in x.ph.allow \ x.ph.done
              x1 == F(x, ok, "P19", "incumbent sent without improvement, twice or to its owner")
              x2 == F(x1, e.xo = x.best.o /\ e.xk = x.best.k /\ e.v = x.best.v, "P19", "wrong incumbent sent")
          IN IF ok THEN [x2 EXCEPT !.ph.done = @ \cup {o}] ELSE x2
     ELSE IF e.key = 1
     THEN IF x.ph.k = "kill" /\ x.ph.vi = o /\ e.crash = 0
          THEN [x EXCEPT !.ph.k = IF x.ph.allow = {} THEN "none" ELSE "hunt", !.o[o].told = 1]
          ELSE IF x.exit /= "no" \/ (x.cv = 1 /\ x.inck = 1)
          THEN LET cr == IF x.exit = "crash" THEN 1 ELSE 0
               IN [F(x, e.crash = cr \/ x.inck = 1, "P09", "order to stop with wrong crash notice") EXCEPT !.o[o].told = 1]
          ELSE IF e.crash = 1
          THEN \* the manager is ending in a crash nobody caused
               [F(x, FALSE, "CRASH", "manager crashed") EXCEPT !.exit = "crash", !.spur = 1, !.o[o].told = 1,
                                                               !.todo = <<>>, !.ph = NoPh]
          ELSE LET may == q.pst /= 0 /\ ~Ended(x, o) /\ ~Settled(x, o)
                   x1 == F(x, StopDue(x, o) /\ may, "P04/P17", "optimizer stopped without reason")
                   x2 == IF StopDue(x1, o) THEN UseFile(x1, o) ELSE x1
               IN [x2 EXCEPT !.o[o].kill = -1, !.o[o].tk = e.t, !.o[o].told = 1]
     ELSE IF e.key \in {0, 2, 3}
     \* the time an optimizer is paused does not count as silence (P18)
    THEN [F(x, x.inck = 1, "P08", "checkpoint signal outside of a checkpoint") EXCEPT !.o[o].lf = IF e.key = 2 THEN @ ELSE e.t]
     ELSE F(x, FALSE, "P14", "unknown signal sent")

OnMRecv(x, e) ==
  LET o == e.o
      q == x.o[o]
      live == ~Ended(x, o)
      y == [x EXCEPT !.o[o].lf = e.t, !.vpause = IF e.key = 1 /\ x.inck = 1 THEN @ \cup LastShown(x, o) ELSE @]
  IN IF e.key = 0 /\ live
     THEN [y EXCEPT !.o[o].key0 = 1, !.o[o].m = e.m, !.vnorm = @ \cup LastShown(x, o)]
     ELSE IF e.key = 9 /\ live
     THEN [y EXCEPT !.o[o].rec = Append(@, e.m), !.cr = IF e.tb = 1 THEN 1 ELSE @]
     ELSE y

(* P18, P04: terminations *)
OnTerm(x, e) ==
  LET o == e.o  q == x.o[o]
  IN IF x.ph.k = "kill" /\ x.ph.vi = o
     THEN [F(x, x.c.aggr = 1 /\ x.c.proc = 1, "P18/P04", "killed by force without being asked to") EXCEPT
             !.ph.k = IF x.ph.allow = {} THEN "none" ELSE "hunt", !.o[o].term = 1, !.o[o].told = 1]
     ELSE IF x.exit /= "no" THEN [F(x, x.c.proc = 1, "P18/P09", "thread terminated") EXCEPT !.o[o].term = 1]
     ELSE IF x.c.aggr = 1 /\ StopDue(x, o) /\ ~Ended(x, o)
     THEN [UseFile(x, o) EXCEPT !.o[o].kill = -1, !.o[o].tk = e.t, !.o[o].term = 1, !.o[o].told = 1]
     ELSE LET late == x.c.force > 0 /\ x.c.proc = 1 /\
                      IF q.kill = 0 THEN e.t - q.lf >= x.c.force - 2 ELSE e.t - q.tk >= x.c.force - 2
              x1 == F(x, late, "P18", "optimizer terminated by force without cause")
          IN [x1 EXCEPT !.o[o].term = 1, !.o[o].told = 1, !.o[o].forced = IF q.key0 = 1 THEN 0 ELSE 1]

(* P03: offering free slots, and starting what is offered *)
SubsetSums(x, S) == {SumW([z \in Opts(x) |-> x.o[z].w], T) : T \in SUBSET S}
RoundEnd(x, e) ==
  \* the manager stops asking the selector although slots are free and the last offer was started
  IF x.rnd = 1 /\ ~(e.ev \in {"sel", "create", "gen", "pstart"})
  THEN [F(x, x.fill = 0 \/ x.sp = 0, "P03", "free slots not offered to the selector") EXCEPT !.rnd = 0, !.fill = 0]
  ELSE x

OnSel(x, e) ==
  LET first == x.rnd = 0
      base == SumW([z \in Opts(x) |-> x.o[z].w], Alive(x))
      opt == x.al \ Alive(x)
      okslots == IF first THEN \E q \in SubsetSums(x, opt) : e.slots = x.c.jobs - base - q
                 ELSE e.slots = x.fill
      x1 == SnapOK(x, e.s, "selector")
      x2 == F(x1, x.sp = 1, "P03", "selector asked after spawning had stopped")
      x3 == F(x2, okslots, "P03", "wrong number of free slots")
      x4 == F(x3, x.cv = 0 /\ x.exit = "no" /\ x.ns = 0, "P10", "selector asked after the exit condition held")
      x5 == F(x4, x.got = 0 \/ x.inck = 1, "P10", "results accepted without evaluating the exit condition")
  IN [x5 EXCEPT !.rnd = 1, !.fill = e.slots, !.sel = 1]

OnSelRet(x, e) ==
  IF e.ret = "opt"
  THEN LET o == x.n + 1 IN
       [F(x, o \in Opts(x), "HARNESS", "too many optimizers") EXCEPT
          !.n = o, !.o[o].w = e.w, !.o[o].w0 = e.w, !.o[o].idx = e.idx, !.o[o].cls = e.cls, !.o[o].dt = e.dc, !.o[o].be = e.be, !.o[o].call = e.call,
          !.selw = e.w, !.o[o].crt = 0]
  ELSE [x EXCEPT !.sp = IF e.ret = "stop" THEN 0 ELSE @, !.fill = 0]

OnCreate(x, e) ==
  IF e.re = 0 /\ x.res = 1 /\ x.started = 0 THEN x \* constructed while being restored, see re = 1
  ELSE IF e.re = 1
  THEN LET known == e.o \in Opts(x) /\ x.o[e.o].re = 1
           x1 == F(x, known, "P06", "optimizer restarted which is not in the checkpoint")
       IN IF known THEN [F(x1, e.k = x.o[e.o].sk /\ e.idx = x.o[e.o].idx /\ e.cls = x.o[e.o].cls, "P06",
                           "optimizer restarted in a different state")
                         EXCEPT !.o[e.o].crt = 1] ELSE x1
  ELSE LET o == x.n
           x1 == F(x, e.o = o, "P05", "optimizer numbers not consecutive")
           ok == e.o \in Opts(x)
           x2 == F(x1, ok /\ e.w = x.o[e.o].w /\ e.idx = x.o[e.o].idx /\ e.be = x.o[e.o].be /\ e.cls = x.o[e.o].cls
                          /\ e.det = x.c.det,
                   "P03", "optimizer not configured as the selector asked")
           x3 == F(x2, x.cv = 0 /\ x.exit = "no" /\ x.ns = 0, "P10", "optimizer created after the exit condition held")
       IN IF ok THEN [x3 EXCEPT !.o[e.o].crt = 1] ELSE x3

OnGen(x, e) ==
  LET x1 == SnapOK(x, e.s, "generator")
  IN IF x.n \in Opts(x) THEN [x1 EXCEPT !.o[x.n].gen = e.n] ELSE x1

OnPStart(x, e) ==
  IF e.o \notin Opts(x) THEN F(x, FALSE, "P05", "unknown optimizer started")
  ELSE
  LET y == [x EXCEPT !.o[e.o].pst = 1, !.o[e.o].lf = e.t, !.o[e.o].ran = 0]
      used == SumW([z \in Opts(x) |-> y.o[z].w], Alive(y))
      x1 == F(y, used <= y.c.jobs, "P03", "more workers than slots")
      x2 == F(x1, x.o[e.o].pst = 0 /\ x.o[e.o].crt = 1, "P05/P06", "optimizer started twice or without being created")
      x3 == F(x2, x.cv = 0 /\ x.exit = "no" /\ x.ns = 0, "P10", "optimizer started after the exit condition held")
      x4 == F(x3, e.proc = x.c.proc, "P03", "optimizer started with the wrong backend")
  IN [x4 EXCEPT !.fill = IF x.o[e.o].re = 1 THEN @ ELSE @ - x.o[e.o].w, !.alc = IF x.o[e.o].re = 1 THEN @ \cup {e.o} ELSE @]

OnRun(x, e) ==
  LET q == x.o[e.o]
      x1 == F(x, e.re = q.re, "P06/P03", "restart flag of an optimizer wrong")
      x2 == F(x1, q.re = 1 \/ (e.x0 = <<500, q.gen, 7>> /\ e.call = q.call /\ e.bok = 1), "P03",
              "optimizer started with wrong start point, bounds or arguments")
      x3 == F(x2, q.re = 0 \/ e.k = q.sk, "P06", "optimizer resumed in a different state")
  IN [F(F(x3, e.w = q.w, "P03", "number of workers differs from the slots"), q.ran = 0, "P05", "optimizer run twice") EXCEPT !.o[e.o].ran = 1]

OnHunt(x, e) ==
  LET x0 == SnapOK(x, e.s, "hunter")
      ok == x.ph.k = "hunt" /\ e.vi \in x.ph.allow \ x.ph.done
      x1 == F(x0, ok, "P04", "optimizer hunted out of turn")
      x2 == F(x1, e.hu = x.best.o, "P04", "hunter is not the holder of the incumbent")
      x3 == F(x2, e.ln = Acc(x, e.vi) /\ e.hl = Acc(x, e.hu), "P15/P04", "log seen by a hunter is wrong")
      x4 == F(x3, x.exit = "no" /\ (x.cv = 0 \/ x.inck = 1), "P10", "hunt after the exit condition held")
      x5 == IF ok THEN [x4 EXCEPT !.ph.done = @ \cup {e.vi}] ELSE x4
  IN IF e.ret = 1 /\ e.vi \in Opts(x)
     THEN [x5 EXCEPT !.o[e.vi].kill = e.hu, !.o[e.vi].tk = e.t, !.ph.k = "kill", !.ph.vi = e.vi]
     ELSE x5

(* All results which were put into the queue by optimizers that were not killed have been accepted *)
AllAccepted(x) == \A z \in Opts(x) : x.o[z].kill /= 0 \/ Acc(x, z) = x.o[z].put
Outstanding(x) == {z \in Opts(x) : x.o[z].pq /= x.o[z].gq}
AllOver(x) == \A z \in Opts(x) : x.o[z].pst = 0 \/ (x.o[z].pst = 2 /\ (Ended(x, z) \/ Settled(x, z) \/ x.o[z].dead = 1))

OnConv(x, e) ==
  IF e.run = 0 THEN x
  ELSE IF x.pre = 1
  THEN [SnapOK(x, e.s, "condition before the start") EXCEPT !.pre = 2, !.ns = e.ret, !.tconv = e.t, !.tprev = e.t, !.al = Alive(x),
                                                          !.alc = Alive(x)]
  ELSE
  LET y == [x EXCEPT !.o = [z \in Opts(x) |-> IF x.o[z].pst = 2 
                                                 THEN [x.o[z] EXCEPT !.dc = @ + 1,
                                                         !.dead = IF SeqAt(e.en, z) \notin {"none", "?"} THEN 1 ELSE @]
                                                 ELSE x.o[z]]]
      x1 == SnapOK(y, e.s, "exit condition")
      x2 == F(x1, x.cv = 0 /\ x.exit = "no" /\ x.ns = 0, "P10", "the run continued although the exit condition held")
      x3 == F(x2, x.deadprev = 0, "P10", "the run continued although nobody is alive and spawning has stopped")
      free == x.c.jobs - SumW([z \in Opts(x) |-> x.o[z].w], x.alc)
      x4 == F(x3, x.sp = 0 \/ x.sel = 1 \/ free <= 0, "P03", "free slots not offered to the selector")
      \* P17: stop files
      late == {j \in 1..Len(x.files) : /\ x.files[j].fo > 0 /\ x.files[j].st = 1 /\ x.files[j].t < x.tconv
                                       /\ x.files[j].fo \in Opts(x) /\ x.files[j].fo \in x.alc
                                       /\ x.o[x.files[j].fo].pst = 1 /\ ~Ended(x, x.files[j].fo)}
      x5 == F(x4, late = {}, "P17", "stop file not acted upon")
      x6 == F(x5, \A j \in 1..Len(x.files) : (x.files[j].fo /= 0 /\ x.files[j].st = 0) =>
                                                          \/ x.files[j].fo \notin Range(e.sf)
                                                          \/ \E k \in 1..Len(x.files) : x.files[k].fo = x.files[j].fo /\ x.files[k].st = 1,
              "P17", "request file not consumed")
      x7 == F(x6, ~\E j \in 1..Len(x.files) : x.files[j].fo = -1 /\ x.files[j].st = 1 /\ x.files[j].t < x.tconv,
              "P17", "checkpoint request not acted upon")
      x8 == F(x7, e.cc = x.c.ck, "P17", "checkpoint configuration changed")
      \* P18: unresponsive processes
      stale == {z \in AliveNT(x) : /\ x.c.force > 0 /\ x.c.proc = 1 /\ z \in x.alc
                                   /\ IF x.o[z].kill = 0 THEN x.o[z].lf + x.c.force + 500 < x.tconv
                                      ELSE x.o[z].tk + x.c.force + 500 < x.tconv}
      x9 == F(x8, stale = {}, "P18", "unresponsive process not terminated")
      x10 == EndsOK(x9, e.en)
      \* P24: scheduled checkpoints
      due == {DueBy(x, p, e.t) : p \in x.sch}
      ckx == IF due = {"must"} THEN "must" ELSE IF due = {"no"} THEN "no" ELSE "may"
  IN [x10 EXCEPT !.cv = e.ret, !.tprev = x.tconv, !.tconv = e.t, !.alc = Alive(x), !.al = Alive(x), !.sel = 0, !.got = 0,
                 !.rnd = 0, !.ckx = ckx,
                 !.nckx = IF e.ret = 1 THEN x.c.atc * x.c.ck ELSE 0,
                 !.deadprev = IF x.sp = 0 /\ e.ret = 0 /\ AllOver(y) /\ AllAccepted(y) /\ ckx = "no" /\ Outstanding(x) = {}
                                  /\ \A z \in Opts(y) : y.o[z].pst = 2 => y.o[z].dc >= 2 THEN 1 ELSE 0,
                 !.fw = 0]

(* Checkpoints (P06, P07, P08, P24) *)
OnCkBeg(x, e) ==
  LET x0 == SnapOK(x, e.s, "checkpoint")
      manual == {j \in 1..Len(x.files) : x.files[j].fo = -1 /\ x.files[j].st = 1}
      init == x.started = 0
      why == IF init THEN "init" ELSE IF x.ckx /= "no" THEN "freq"
             ELSE IF x.cv = 1 \/ x.deadprev = 1 \/ (x.sp = 0 /\ Alive(x) = {}) THEN "end"
             ELSE IF manual /= {} THEN "manual" ELSE "none"
      \* a manual request made during the checkpoint itself can only be served later
      x1 == F(x0, CASE why = "init" -> x.c.ati = 1
                    [] why = "freq" -> TRUE
                    [] why = "end" -> x.c.atc = 1 \/ manual /= {}
                    [] why = "manual" -> TRUE
                    [] OTHER -> FALSE, "P24/P17", "checkpoint made without reason")
      x2 == F(x1, why /= "manual" \/ x.c.ck = 1 \/ e.kp = -1, "P17", "requested checkpoint not made with defaults")
      x3 == IF why = "freq"
            THEN [x2 EXCEPT !.sch = UNION {AfterDue(x, p, x.tconv) : p \in x.sch}]
            ELSE x2
      x5 == IF why = "end" THEN [x3 EXCEPT !.nckx = 0] ELSE x3
      x6 == IF why = "manual" \/ (why = "end" /\ x.c.atc = 0)
            THEN [x5 EXCEPT !.files = [y \in 1..Len(@) |-> IF @[y].fo = -1 /\ @[y].st = 1 THEN [@[y] EXCEPT !.st = 0] ELSE @[y]]]
            ELSE x5
  IN [x6 EXCEPT !.inck = 1, !.ckx = "no", !.cksave = {}, !.ckbadsave = 0, !.ckdied = 0, !.ckal = Alive(x), !.cksen = {},
                !.cki = 0, !.ck = e.dirok, !.ckkp = e.kp, !.cku = x.used + (IF x.started = 1 THEN e.t - x.t0 ELSE 0)]

SavedState(x) == [x EXCEPT !.saved = <<>>, !.bad = {}, !.files = <<>>]

OnCkEnd(x, e) ==
  IF e.err /= ""
  THEN LET x1 == F(x, e.new = 0 /\ e.extra = 0 /\ e.lost = <<>>, "P07", "failed checkpoint left something behind or removed something")
           x2 == F(x1, (x.c.rcf = 1 /\ (x.ckbadsave = 1 \/ x.ckdied = 1)) \/ x.fkind /= "", "P07/P08/CRASH",
                   "failure of a checkpoint ended the run")
       IN [x2 EXCEPT !.inck = 0, !.exit = "crash", !.spur = IF x.fkind /= "" THEN 0 ELSE 1]
  ELSE
  LET \* every optimizer which ended during the checkpoint without saying so has been found
      y == [x EXCEPT !.todo = <<>>]
      x0 == SnapOK(y, e.s, "end of checkpoint")
      stuck == {z \in Alive(x) : x.o[z].held = 1 \/ x.o[z].paused = 1}
      x1 == F(x0, stuck = {}, "P08", "optimizer not released after a checkpoint")
      ok == e.new = 1
      x2 == F(x1, e.extra = 0, "P07", "checkpoint left a partial directory or file")
      x3 == IF x.ck = 0 THEN x2
            ELSE IF ok
            THEN LET a == F(x2, x.ckbadsave = 0, "P07/P06", "checkpoint succeeded although an optimizer could not be saved")
                     rm == Removed(x.ckkp, x.nck)
                     b == F(a, e.lost = [j \in 1..rm |-> j] /\ e.nb = x.nck, "P07", "wrong earlier checkpoints removed")
                 IN [b EXCEPT !.nck = @ + 1 - rm]
            ELSE LET a == F(x2, x.ckbadsave = 1 \/ x.ckdied = 1, "P07/P08", "checkpoint failed without reason")
                     b == F(a, e.lost = <<>>, "P07", "failed checkpoint removed an earlier one")
                 IN F(b, x.c.rcf = 0 \/ x.ck = 0, "P07", "failure of a checkpoint was not reported")
      need == {z \in Alive(x) \cap x.ckal : ~Ended(x, z) /\ z \notin x.cksen}
      savedo == {q[1] : q \in x.cksave}
      x4 == F(x3, x.ck = 0 \/ ~ok \/ need \subseteq savedo, "P06", "living optimizer not saved in the checkpoint")
      x5 == F(x4, ~ok \/ \A q \in x.cksave : ~Ended(x, q[1]), "P06", "ended or killed optimizer saved in the checkpoint")
      x6 == F(x5, ~ok \/ \A q \in x.cksave : Acc(x, q[1]) = q[2], "P06",
              "saved history and saved optimizer disagree")
      x7 == [x6 EXCEPT !.inck = 0, !.al = Alive(x), !.got = 0, !.nok = IF ok THEN @ + 1 ELSE @]
  IN IF ok /\ x.ck = 1 THEN [x7 EXCEPT !.saved = Append(@, [SavedState(x7) EXCEPT !.ckfiled = x.cksave, !.used = x.cku])] ELSE x7

OnCkFile(x, e) ==
  LET got == {<<q[1], q[2]>> : q \in Range(e.opts)}
      x1 == F(x, got = x.cksave, "P06", "optimizers in the checkpoint file differ from those saved")
  IN F(x1, e.id = Len(x.saved) \/ x.ck = 0, "HARNESS", "checkpoint numbering")

(* A new session restored from checkpoint e.id *)
OnNewSession(x, e) ==
  IF e.id \notin 1..Len(x.saved) THEN F(x, FALSE, "HARNESS", "unknown checkpoint")
  ELSE
  LET b == x.saved[e.id]
      sv == {q[1] : q \in b.ckfiled}
      kOf(z) == (CHOOSE q \in b.ckfiled : q[1] = z)[2]
  IN [b EXCEPT !.saved = x.saved, !.bad = x.bad, !.i = x.i, !.nck = x.nck,
               !.o = [z \in Opts(b) |->
                        IF z \in sv
                        THEN [b.o[z] EXCEPT !.w = b.o[z].w0, !.pst = 0, !.held = 0, !.paused = 0, !.told = 0, !.re = 1, !.pq = 0, !.gq = 0, !.sk = kOf(z), !.crt = 0,
                                            !.pend = 0, !.ev = SubSeq(@, 1, kOf(z)), !.put = kOf(z), !.sent = @, !.term = 0, !.ks = 0]
                        ELSE IF z <= b.n THEN [b.o[z] EXCEPT !.pst = 2, !.pq = 0, !.gq = 0, !.dead = 1, !.re = 0, !.held = 0, !.paused = 0]
                        ELSE NewOpt],
               !.cr = 0, !.res = 1, !.started = 0, !.cv = 0, !.ns = 0, !.exit = "no", !.todo = <<>>, !.ph = NoPh, !.inck = 0,
               !.deadprev = 0, !.rnd = 0, !.fill = 0, !.files = <<>>, !.al = {}, !.alc = {}, !.sel = 0, !.got = 0, !.ckx = "no",
               !.nckx = 0, !.fkind = "", !.spur = 0, !.fin = 0, !.dexit = 0, !.gone = Opts(b) \ sv]

OnLoaded(x, e) ==
  LET re == {z \in Opts(x) : x.o[z].re = 1}
      tight == SumW([z \in Opts(x) |-> x.o[z].w], re) > x.c.jobs
      each == x.c.jobs \div Cardinality(re)   \* too many for this session: the slots are divided equally
  IN
  IF tight /\ each = 0 THEN F(x, e.err = "CheckpointingError", "P06/P03", "restarted although not even one slot each")
  ELSE IF e.err /= "" THEN F(x, FALSE, "P06", "checkpoint cannot be loaded")
  ELSE LET x0 == IF tight THEN [x EXCEPT !.o = [z \in Opts(x) |-> IF z \in re THEN [x.o[z] EXCEPT !.w = each] ELSE x.o[z]]] ELSE x
           x1 == SnapOK(x0, e.s, "loading")
       IN F(x1, \A z \in Opts(x) : x.o[z].re = 1 => x.o[z].crt = 1, "P06", "optimizer of the checkpoint not restarted")

OnLoadLog(x, e) ==
  LET x1 == LogAll(x, e.log, FALSE, Whole(x))
      x2 == F(x1, Len(e.log) = x.n, "P06/P15", "restored log has a different number of optimizers")
      x3 == F(x2, x.f = 0 \/ e.best = BestT(x), "P06/P15", "best evaluation of the restored log wrong")
  IN F(x3, \A j \in 1..Len(e.log) : (e.log[j].o \in Opts(x) /\ x.o[e.log[j].o].re = 0) => e.log[j].end /= "none" \/ e.log[j].cl = 1,
       "P05/P06", "optimizer neither ended nor in the checkpoint")

OnStart(x, e) ==
  LET x1 == F(x, e.phase = 1 \/ \A z \in Opts(x) : x.o[z].re = 1 => x.o[z].crt = 1, "P06", "optimizer of the checkpoint not restarted")
      \* the time used by earlier sessions, up to the checkpoint resumed from
      x2 == F(x1, e.phase = 1 \/ (e.tu >= x.used - 60 /\ e.tu <= x.used + 60), "P12/P06", "time used by earlier sessions wrong")
  IN [SnapOK(x2, e.s, "start") EXCEPT !.pre = 1, !.started = 1, !.np = @ + 1, !.plots = 0, !.t0 = e.t, !.sch = {<<p[1], e.t>> : p \in @}, !.tconv = e.t, !.tprev = e.t, !.phase = e.phase, !.pb = [z \in Opts(x) |-> Len(x.o[z].ev)]]

(* A user component failed, or the user interrupted *)
OnFault(x, e) ==
  IF x.pre = 2 /\ e.comp = "conv" THEN [x EXCEPT !.ns = 0]
  ELSE [x EXCEPT !.exit = "crash", !.fkind = e.kind, !.todo = <<>>, !.ph = NoPh, !.cv = 0, !.deadprev = 0, !.rnd = 0, !.ckx = "no",
                 !.nckx = 0,
                 !.o = [z \in Opts(x) |-> IF x.ph.k = "kill" /\ x.ph.vi = z THEN [x.o[z] EXCEPT !.kill = 0] ELSE x.o[z]]]

OnRet(x, e) ==
  LET \* nothing to do from the start: the run is not begun
      nothing == x.pre = 2 /\ x.ns = 0 /\ x.sp = 0 /\ \A z \in Opts(x) : x.o[z].re = 0
      dead == x.exit = "no" /\ x.cv = 0 /\ x.ns = 0 /\ ~nothing
      x1 == F(x, ~dead \/ (x.sp = 0 /\ AllOver(x)), "P10/P09", "the run ended without reason")
      x2 == F(x1, ~dead \/ AllAccepted(x), "P10/P01", "the run ended although results were not accepted yet")
      x3 == F(x2, e.exc = "" /\ e.none = 0, "P09", "the run did not return a result")
      x4 == SnapOK(x3, e.s, "end")
      x5 == F(x4, \A z \in Alive(x) : x.o[z].told = 1, "P09", "living optimizer not told to stop")
      x6 == F(x5, \A z \in Opts(x) : ~(x.o[z].pst = 2 /\ x.o[z].xe = 1 /\ x.o[z].term = 1 /\ x.o[z].told = 0), "P09",
              "optimizer terminated without being told to stop")
  IN [x6 EXCEPT !.dexit = IF dead THEN 1 ELSE 0, !.exit = IF x.exit = "no" THEN "conv" ELSE @,
                !.ns = IF nothing THEN 1 ELSE @, !.pre = 0, !.tret = e.t]

Restarted(x) == x.ns = 0
OnFin(x, e) ==
  LET inc == Incumbent(x.f, x.best)
      r == e.r
      x1 == F(x, r.bo = inc.bo /\ r.xo = inc.xo /\ r.xk = inc.xk /\ r.bv = inc.bv, "P01/P09", "returned result is not the incumbent")
      started == x.ns = 0
      want == IF x.fkind = "kbd" THEN {"kbd"} ELSE IF x.exit = "crash" THEN {"crash"} ELSE IF x.dexit = 1 THEN {"dead"} ELSE {"check"}
      x2 == F(x1, ~started \/ r.cond \in want, "P09/P10", "reported reason for ending is wrong")
      x2b == F(x2, x.spur = 1 \/ r.cond /= "crash" \/ x.exit = "crash", "CRASH", "manager crashed")
      x3 == F(x2b, ~started \/ x.f = 0 \/ r.ev = x.f, "P01/P09", "returned evaluation count wrong")
      x4 == F(x3, x.c.proc = 0 \/ e.live = <<>>, "P09", "processes left running")
      x5 == F(x4, x.c.proc = 1 \/ x.c.endto = 1 \/ x.exit = "crash" \/ e.live = <<>>, "P09", "threads left running")
      x6 == F(x5, ~started \/ e.closed = 1, "P09", "log not closed")
      x7 == IF e.closed = 1 THEN LogAll(x6, e.log, TRUE, Whole(x)) ELSE x6
      x8 == F(x7, e.closed = 0 \/ Len(e.log) = x.n, "P15/P05", "number of optimizers in the log wrong")
      x9 == F(x8, e.closed = 0 \/ e.nlog = x.f, "P15/P01", "length of the log wrong")
      x10 == F(x9, e.closed = 0 \/ x.f = 0 \/ e.best = BestT(x), "P15/P01", "best evaluation in the log wrong")
  IN [x10 EXCEPT !.fin = 1]

(* P14: everything an optimizer sent before it ended is in the log if its end was recorded *)
OnMsgs(x, e) ==
  IF e.o \notin Opts(x) THEN x
  ELSE LET x1 == MsgsOK(x, e.o, e.ms)
           q == x.o[e.o]
           over == x.res = 0 /\ (q.key0 = 1 \/ (q.pst = 2 /\ q.kill = 0 /\ q.forced = 0 /\ Settled(x, e.o)))
           sentb == q.sent
       IN F(F(x1, ~over \/ q.rec = sentb, "P14", "message of an ended optimizer not recorded"),
            IsPrefix(q.rec, sentb) \/ x.res = 1, "P14", "messages out of order")

EndReasons(x) == IF x.fkind = "kbd" THEN {"kbd"} ELSE IF x.exit = "crash" THEN {"crash"} ELSE IF x.dexit = 1 THEN {"dead"} ELSE {"check"}
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

OnYml(x, e) ==
  LET inc == Incumbent(x.f, x.best)
      x1 == F(x, e.f = x.f /\ e.bv = inc.bv /\ e.bo = inc.bo, "P01/P25", "summary file states a wrong result")
      x2 == F(x1, e.h = x.h /\ e.kl = Cardinality(Victims(x)), "P04/P25", "summary file states wrong hunts or kills")
      x3 == F(x2, e.n = x.n /\ CLow(x) <= e.c /\ e.c <= CHigh(x), "P05/P25", "summary file states wrong optimizer counts")
      x4 == F(x3, inc.bo <= 0 \/ (e.xo = inc.xo /\ e.xk = inc.xk), "P25", "summary file states wrong parameters")
      x5 == F(x4, e.cond \in (IF e.req = 1 THEN {"manual"} ELSE EndReasons(x)), "P25", "summary file states a wrong reason for ending")
      x6 == F(x5, e.jobs = x.c.jobs /\ e.hc = x.c.hunter, "P25", "summary file states wrong settings")
      x7 == F(x6, x.c.ck = 0 \/ e.ncl = x.nok, "P25", "summary file lists wrong checkpoints")
      tot == SumSeq(e.spans)
      x8 == F(x7, Len(e.spans) = x.np /\ Near(e.total, tot, 5), "P25", "summary file states wrong sessions")
      x9 == F(x8, Near(e.total, x.used + (IF e.req = 1 THEN 0 ELSE e.sess), 60 * (x.np + 1)), "P25/P12", "summary file states a wrong total time")
  IN F(x9, IF e.req = 1 THEN e.sess = -1
           ELSE Near(e.sess, e.spans[Len(e.spans)], 5) /\ x.tconv - x.t0 <= e.sess + 60 /\ e.sess <= x.tret - x.t0 + 60,
       "P25", "summary file states a wrong session time")

H5Rec(x, r) ==
  LET z == r.o
      q == x.o[z]
      cnt == Acc(x, z)
      frm == Since(x, z)
      x1 == F(x, r.hist = SubSeq(Made(q.ev, cnt), frm, cnt) /\ r.ks = [j \in 1..cnt + 1 - frm |-> j + frm - 1] /\ r.xos = [j \in 1..cnt + 1 - frm |-> z]
                 /\ r.ids = SubSeq(q.ids, frm, cnt),
              "P15", "log file of an optimizer wrong")
      x2 == F(x1, r.end \in EndSet(x, z, TRUE) /\ (r.t = 1 \/ q.pst = 0), "P15/P05", "end of an optimizer wrong in the log file")
      x3 == F(x2, cnt < frm \/ r.xs = Columns(x, z, frm, cnt), "P29", "details of the evaluations wrong in the log file")
  IN F(x3, Texts(Own(r.ms)) = q.rec \/ x.res = 1, "P15/P14", "messages in the log file wrong")
RECURSIVE H5All(_, _)
H5All(x, L) == IF L = <<>> THEN x ELSE H5All(IF Head(L).o \in Opts(x) THEN H5Rec(x, Head(L)) ELSE x, Tail(L))
OnH5(x, e) ==
  LET x1 == F(x, e.f = x.f /\ e.n = x.n /\ \A z \in 1..x.n : (z \in {e.opts[j].o : j \in 1..Len(e.opts)}) \/ (x.lossy = 1 /\ z \in x.gone), "P15", "totals of the log file wrong")
      x2 == F(x1, x.f = 0 \/ e.best = BestT(x), "P15", "best evaluation of the log file wrong")
      x3 == F(x2, e.md[1] = x.f /\ e.md[2] = x.h /\ e.md[3] = x.n /\ e.md[4] = Cardinality(Victims(x))
                  /\ CLow(x) <= e.md[5] /\ e.md[5] <= CHigh(x) /\ e.cond \in EndReasons(x), "P25", "totals or reason in the log file wrong")
  IN H5All(x3, e.opts)

(* Exactly the products asked for *)
\* every optimizer prints at each evaluation, alternating between both streams; the selector prints to that of the manager
OnPrints(x, e) ==
  LET from(z) == IF z \in DOMAIN x.pb THEN x.pb[z] ELSE 0
      one == {z \in Opts(x) : x.o[z].pst /= 0 /\ Len(x.o[z].ev) > from(z)}
      is(z, k) == [j \in 1..(IF Len(x.o[z].ev) > from(z) THEN Len(x.o[z].ev) - from(z) ELSE 0) |-> <<z, from(z) + j>>]
      want(z, st) == SelectSeq(is(z, 0), LAMBDA w: w[2] % 2 = (IF st = "out" THEN 1 ELSE 0))
      whole(z) == x.o[z].pst = 2 /\ x.o[z].code >= 0   \* lines still buffered by a process which is ended by force are lost
      got(z, st) == {j \in 1..Len(e.fs) : e.fs[j][1] = z /\ e.fs[j][2] = st}
      okay(z, st) == /\ Cardinality(got(z, st)) = 1
                     /\ \A j \in got(z, st) : LET p == e.fs[j][3] w == want(z, st) IN
                          IF whole(z) THEN p = w ELSE Len(p) <= Len(w) /\ p = SubSeq(w, 1, Len(p))
      x1 == F(x, \A z \in one : okay(z, "out") /\ okay(z, "err"), "P22", "print stream of an optimizer incomplete or mixed")
      x2 == F(x1, \A j \in 1..Len(e.fs) : LET z == e.fs[j][1] IN \A w \in 1..Len(e.fs[j][3]) : e.fs[j][3][w][1] = z, "P22", "printed to the file of another")
  IN F(x2, \A j \in 1..Len(e.mgr) : e.mgr[j][1] = 0, "P22", "output of an optimizer in that of the manager")

OnFiles(x, e) ==
  LET on(k) == IF e.run = 1 /\ x.c.summary >= k THEN 1 ELSE 0
      x1 == F(x, e.run = 0 \/ (e.yml = on(1) /\ x.plots = on(2)), "P25", "wrong summary products")
  IN F(x1, e.run = 0 \/ e.h5 = on(3), "P25/P15", "log file missing or not asked for")

-----------------------------------------------------------------------------------------------------------------------
Handle(x, e) ==
  CASE e.ev = "cfg" -> [x EXCEPT !.c = e]
    [] e.ev = "cfg2" -> [x EXCEPT !.c = e, !.f0 = IF e.nf = 1 THEN x.f ELSE 0, !.lossy = IF x.c.summary < 2 THEN 1 ELSE @]
    [] e.ev = "start" -> OnStart(x, e)
    [] e.ev = "eval" -> IF e.o \in Opts(x) THEN OnEval(x, e) ELSE F(x, FALSE, "HARNESS", "unknown optimizer")
    [] e.ev = "qput" -> IF e.o \in Opts(x) THEN OnPut(x, e) ELSE x
    [] e.ev = "qget" -> IF x.exit /= "no" \/ x.started = 0 THEN x
                        ELSE LET y == F(x, x.cv = 0 \/ x.inck = 1, "P10", "results accepted after the exit condition held")
                                 lf == {it[1] : it \in {e.it[j] : j \in {j \in 1..Len(e.it) : e.it[j][2] /= 0}}}
                             IN Drain([y EXCEPT !.todo = @ \o e.it,
                                                !.o = [z \in Opts(x) |-> [x.o[z] EXCEPT !.lf = IF z \in lf THEN e.t ELSE @,
                                                                    !.gq = @ + Cardinality({j \in 1..Len(e.it) : e.it[j][1] = z})]]])
    [] e.ev = "osend" -> OnOSend(x, e)
    [] e.ev = "orecv" -> OnORecv(x, e)
    [] e.ev = "callstop" -> Exec(x, e.o, 1, "stop")
    [] e.ev = "inject" -> OnInject(x, e)
    [] e.ev = "badret" -> F(x, FALSE, "P29/P01", "the optimizer is given another value")
    [] e.ev = "badinject" -> F(x, FALSE, "P19", "injected value not available to the optimizer")
    [] e.ev = "save" -> OnSave(x, e)
    [] e.ev = "pexit" -> OnPExit(x, e)
    [] e.ev = "eset" -> IF e.by = 0 /\ e.o \in Opts(x) THEN [x EXCEPT !.o[e.o].held = 0, !.o[e.o].paused = 0, !.o[e.o].lf = e.t] ELSE x
    [] e.ev = "eclr" -> IF e.by = e.o /\ e.o \in Opts(x) THEN [x EXCEPT !.o[e.o].paused = 1] ELSE x
    [] e.ev = "msend" -> IF e.o \in Opts(x) THEN OnMSend(x, e) ELSE x
    [] e.ev = "mrecv" -> IF e.o \in Opts(x) THEN OnMRecv(x, e) ELSE x
    [] e.ev = "term" -> IF e.o \in Opts(x) /\ e.by = 0 THEN OnTerm(x, e) ELSE x
    [] e.ev = "sel" -> OnSel(x, e)
    [] e.ev = "selret" -> OnSelRet(x, e)
    [] e.ev = "create" -> OnCreate(x, e)
    [] e.ev = "gen" -> OnGen(x, e)
    [] e.ev = "pstart" -> OnPStart(x, e)
    [] e.ev = "run" -> OnRun(x, e)
    [] e.ev = "hunt" -> OnHunt(x, e)
    [] e.ev = "conv" -> OnConv(x, e)
    [] e.ev = "file" -> [x EXCEPT !.files = Append(@, [fo |-> e.fo, st |-> 1, t |-> e.t])]
    [] e.ev = "ckbeg" -> OnCkBeg(x, e)
    [] e.ev = "ckend" -> OnCkEnd(x, e)
    [] e.ev = "ckfile" -> OnCkFile(x, e)
    [] e.ev = "ckbad" -> F(x, FALSE, "P07", "checkpoint file cannot be read")
    [] e.ev = "fault" -> OnFault(x, e)
    [] e.ev = "newsession" -> OnNewSession(x, e)
    [] e.ev = "loaded" -> OnLoaded(x, e)
    [] e.ev = "loadlog" -> OnLoadLog(x, e)
    [] e.ev = "ret" -> OnRet(x, e)
    [] e.ev = "fin" -> OnFin(x, e)
    [] e.ev = "msgs" -> OnMsgs(x, e)
    [] e.ev = "yml" -> OnYml(x, e)
    [] e.ev = "h5" -> OnH5(x, e)
    [] e.ev = "prints" -> OnPrints(x, e)
    [] e.ev = "files" -> OnFiles(x, e)
    [] e.ev = "plot" -> F([x EXCEPT !.plots = @ + 1], e.here = 1 /\ e.ok = 1, "P25", "trajectory plot in the wrong place")
    [] e.ev = "scope" -> OnScope(x, e)
    [] e.ev = "reported" -> F(x, e.same = 1 /\ e.n = 1, "P25", "summary written to the wrong place")
    [] e.ev = "stuck" -> F(x, FALSE, IF x.inck = 1 THEN "P08/P09/HANG" ELSE "P09/P02/HANG", "the run hangs")
    [] e.ev = "harness" -> F(x, FALSE, "P09/P06", "the interface failed")
    [] OTHER -> x

Step(x, e, j) ==
  LET x0 == [x EXCEPT !.i = j]
  IN IF e.ev = "fault" THEN Handle(x0, e)
     ELSE IF IsMgr(e)
     THEN LET pre == IF x0.pre = 2 /\ e.ev /= "ret" THEN [x0 EXCEPT !.pre = 0] ELSE x0
              a == IF e.ev = "create" /\ (e.re = 1 \/ (pre.res = 1 /\ pre.started = 0)) THEN pre
                   ELSE RoundEnd(CkDue(EnterExit(Settle(pre, e), e), e), e)
              b == Handle(a, e)
          IN [b EXCEPT !.al = Alive(b)]
     ELSE Handle(x0, e)

-----------------------------------------------------------------------------------------------------------------------
Init == /\ tr \in 1..Len(Traces)
        /\ i = 0
        /\ s = Init0(N(tr))
Next == /\ i < Len(Traces[tr].ev)
        /\ i' = i + 1
        /\ s' = Step(s, Ev(tr, i + 1), i + 1)
        /\ tr' = tr
        /\ (i' = Len(Traces[tr].ev) =>
              PrintT("VERDICT " \o ToJson([id |-> Traces[tr].id, bad |-> s'.bad, fin |-> s'.fin, f |-> s'.f])))
Spec == Init /\ [][Next]_<<tr, i, s>>
View == <<tr, i>>
====
