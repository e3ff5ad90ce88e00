---- MODULE Glompo ----
(* Design of a managed optimization: the manager loop, the optimizers, the results queue, the two pipes of every        *)
(* optimizer, hunts, ends, checkpoints (the pause / save / release handshake) and the restart from a checkpoint.        *)
(* The rules themselves (incumbent, hunts, ends, retention) are those of GlompoCore, which also decide the recorded     *)
(* behaviour of the real code (GlompoTrace). Every step is one on which the threads and processes of the implementation *)
(* can interleave. Bug names a mistake in the design; each of them breaks one of the properties below, which shows that *)
(* the properties are not vacuous (see mutants.py).                                                                        *)
EXTENDS GlompoCore, TLC

CONSTANTS N,       \* optimizers which the selector will offer
          K,       \* evaluations each of them is able to make
          V,       \* values of an evaluation
          J,       \* slots (every optimizer needs one)
          QS,      \* size of the results queue
          HF,      \* hunting period (0: no hunting)
          FMAX,    \* the exit condition: so many evaluations
          CK,      \* checkpoints which may be made
          SES,     \* sessions (restarts from the last checkpoint)
          SHARE,   \* incumbent sharing
          Ends,    \* ways in which optimizers end on their own, subset of {"conv", "silent", "raise"}
          Faults,  \* subset of {"die", "hang", "save", "crash"}
          Bug

Opt == 1..N
VARIABLES pc, todo, left,            \* manager: control point, what is still to be done in it, results still acceptable
          n, sp, packs, grave, kill, kat, endc, conv, lastf, hunts, log, best, told, cvd, crash, \* manager: data
          q, m2o, o2m,               \* queue and pipes
          st, pst, ev, stop, run, done, rec, sent, ret, \* optimizers (done: how it ended; rec/sent: messages)
          wait, notc, msgd, saved, fail, snap, nck, ses, fin, forced

mgr == <<pc, todo, left, n, sp, packs, grave, kill, kat, endc, conv, lastf, hunts, log, best, told, cvd, crash>>
opts == <<st, pst, ev, stop, run, done, rec, sent, ret>>
ckv == <<wait, notc, msgd, saved, fail, snap, nck, ses, fin, forced>>
vars == <<mgr, q, m2o, o2m, opts, ckv>>

f == Len(log)
Min(S) == CHOOSE a \in S : \A b \in S : a <= b
Acc(o) == Len(SelectSeq(log, LAMBDA r : r[1] = o))
Alive == {o \in Opt : pst[o] = 1}
NoSnap == [ok |-> 0]

Init == /\ pc = "fill" /\ todo = {} /\ left = 0
        /\ n = 0 /\ sp = TRUE /\ packs = {} /\ grave = {} /\ kill = [o \in Opt |-> 0] /\ kat = [o \in Opt |-> 0] /\ endc = [o \in Opt |-> "none"]
        /\ conv = 0 /\ lastf = 0 /\ hunts = 0 /\ log = <<>> /\ best = NoBest /\ told = {} /\ cvd = FALSE /\ crash = FALSE
        /\ q = <<>> /\ m2o = [o \in Opt |-> <<>>] /\ o2m = [o \in Opt |-> <<>>]
        /\ st = [o \in Opt |-> "new"] /\ pst = [o \in Opt |-> 0] /\ ev = [o \in Opt |-> <<>>]
        /\ stop = [o \in Opt |-> FALSE] /\ run = [o \in Opt |-> TRUE] /\ done = [o \in Opt |-> "no"]
        /\ rec = [o \in Opt |-> 0] /\ sent = [o \in Opt |-> 0] /\ ret = [o \in Opt |-> "run"]
        /\ wait = {} /\ notc = {} /\ msgd = {} /\ saved = [o \in Opt |-> -1] /\ fail = FALSE /\ snap = NoSnap /\ nck = 0 /\ ses = 1
        /\ fin = [o \in Opt |-> "no"] /\ forced = {}

-----------------------------------------------------------------------------------------------------------------------
(* Optimizers *)
Go(o, s) == st' = [st EXCEPT ![o] = s]

Eval(o) == /\ st[o] = "run" /\ ~stop[o] /\ Len(ev[o]) < K
           /\ \E v \in V : ev' = [ev EXCEPT ![o] = Append(@, v)]
           /\ Go(o, "put")
           /\ UNCHANGED <<mgr, q, m2o, o2m, pst, stop, run, done, rec, sent, ret, ckv>>
Put(o) == /\ st[o] = "put" /\ Len(q) < QS
          /\ q' = Append(q, <<o, Len(ev[o])>>)
          /\ \E s \in {"run", "check"} : Go(o, s)
          /\ UNCHANGED <<mgr, m2o, o2m, pst, ev, stop, run, done, rec, sent, ret, ckv>>
(* reading signals: between evaluations (back to run) or while paused (back to held) *)
Check(o) == /\ st[o] = "check"
            /\ IF m2o[o] = <<>> THEN Go(o, "run") /\ UNCHANGED <<m2o, o2m, stop>>
               ELSE /\ m2o' = [m2o EXCEPT ![o] = Tail(@)]
                    /\ CASE Head(m2o[o]) = 1 -> stop' = [stop EXCEPT ![o] = TRUE] /\ UNCHANGED <<st, o2m>>
                         [] Head(m2o[o]) = 2 -> o2m' = [o2m EXCEPT ![o] = Append(@, 1)] /\ Go(o, "held") /\ UNCHANGED stop
                         [] OTHER -> UNCHANGED <<st, o2m, stop>>
            /\ UNCHANGED <<mgr, q, pst, ev, run, done, rec, sent, ret, ckv>>
Held(o) == /\ st[o] = "held" /\ m2o[o] /= <<>>
           /\ m2o' = [m2o EXCEPT ![o] = Tail(@)]
           /\ CASE Head(m2o[o]) = 1 -> stop' = [stop EXCEPT ![o] = TRUE] /\ UNCHANGED <<st, saved>>
                [] Head(m2o[o]) = 0 -> /\ Go(o, "save")
                                       /\ UNCHANGED <<saved, stop>>
                [] Head(m2o[o]) = 3 -> Go(o, "pass") /\ UNCHANGED <<saved, stop>>
                [] OTHER -> UNCHANGED <<st, saved, stop>>
           /\ UNCHANGED <<mgr, q, o2m, pst, ev, run, done, rec, sent, ret, wait, notc, msgd, fail, snap, nck, ses, fin, forced>>
Save(o) == /\ st[o] = "save"
           /\ \/ saved' = [saved EXCEPT ![o] = Len(ev[o])]
              \/ "save" \in Faults /\ saved' = saved
           /\ Go(o, IF Bug = "nopause" THEN "check" ELSE "pass")
           /\ UNCHANGED <<mgr, q, m2o, o2m, pst, ev, stop, run, done, rec, sent, ret, wait, notc, msgd, fail, snap, nck, ses, fin, forced>>
Pass(o) == /\ st[o] = "pass" /\ run' = [run EXCEPT ![o] = FALSE] /\ Go(o, "paused")
           /\ UNCHANGED <<mgr, q, m2o, o2m, pst, ev, stop, done, rec, sent, ret, ckv>>
Release(o) == /\ st[o] = "paused" /\ run[o] /\ Go(o, "check")
              /\ UNCHANGED <<mgr, q, m2o, o2m, pst, ev, stop, run, done, rec, sent, ret, ckv>>
(* a message to the manager *)
Note(o) == /\ st[o] = "run" /\ sent[o] = 0 /\ "note" \in Ends
           /\ sent' = [sent EXCEPT ![o] = 1] /\ o2m' = [o2m EXCEPT ![o] = Append(@, 9)]
           /\ UNCHANGED <<mgr, q, m2o, st, pst, ev, stop, run, done, rec, ret, ckv>>
Endless == "endless" \in Ends  \* optimizers which go on until they are told to stop (evaluations beyond K are left out)
Poll(o) == /\ Endless /\ st[o] = "run" /\ ~stop[o] /\ Len(ev[o]) = K /\ m2o[o] /= <<>> /\ Go(o, "check")
           /\ UNCHANGED <<mgr, q, m2o, o2m, pst, ev, stop, run, done, rec, sent, ret, ckv>>
Finish(o) == /\ st[o] = "run" /\ (stop[o] \/ (Len(ev[o]) = K /\ ~Endless))
             /\ \E how \in Ends \ {"note", "endless"} :
                  /\ done' = [done EXCEPT ![o] = how]
                  /\ o2m' = IF how = "conv" THEN [o2m EXCEPT ![o] = Append(@, 0)]
                            ELSE IF how = "raise" THEN [o2m EXCEPT ![o] = Append(@, 9)] ELSE o2m
                  /\ sent' = IF how = "raise" THEN [sent EXCEPT ![o] = @ + 1] ELSE sent
             /\ Go(o, "last")
             /\ UNCHANGED <<mgr, q, m2o, pst, ev, stop, run, rec, ret, ckv>>
Last(o) == /\ st[o] = "last" /\ Len(q) < QS
           /\ q' = Append(q, <<o, 0>>) /\ Go(o, "gone") /\ pst' = [pst EXCEPT ![o] = 2]
           /\ ret' = [ret EXCEPT ![o] = IF done[o] = "raise" THEN "err" ELSE "ok"]
           /\ UNCHANGED <<mgr, m2o, o2m, ev, stop, run, done, rec, sent, ckv>>
Die(o) == /\ "die" \in Faults /\ pst[o] = 1 /\ st[o] /= "put"
          /\ Go(o, "gone") /\ pst' = [pst EXCEPT ![o] = 2] /\ ret' = [ret EXCEPT ![o] = "err"]
          /\ UNCHANGED <<mgr, q, m2o, o2m, ev, stop, run, done, rec, sent, ckv>>
Hang(o) == /\ "hang" \in Faults /\ st[o] \in {"run", "last"} /\ Go(o, "hung")
           /\ UNCHANGED <<mgr, q, m2o, o2m, pst, ev, stop, run, done, rec, sent, ret, ckv>>
OptStep(o) == Eval(o) \/ Put(o) \/ Check(o) \/ Held(o) \/ Save(o) \/ Pass(o) \/ Release(o) \/ Poll(o) \/ Finish(o) \/ Last(o)

-----------------------------------------------------------------------------------------------------------------------
(* Manager *)
At(p) == pc = p
(* a dead optimizer which is terminated by force *)
Term(o) == /\ st' = [st EXCEPT ![o] = "gone"] /\ pst' = [pst EXCEPT ![o] = 2]
           /\ ret' = IF pst[o] = 1 THEN [ret EXCEPT ![o] = "term"] ELSE ret
FreeSlots == J - Cardinality(packs \cap Alive)
Fill == /\ At("fill")
        /\ IF sp /\ FreeSlots > 0
           THEN \/ /\ n < N
                   /\ n' = n + 1 /\ packs' = packs \cup {n + 1}
                   /\ pst' = [pst EXCEPT ![n + 1] = 1] /\ st' = [st EXCEPT ![n + 1] = "run"]
                   /\ UNCHANGED <<pc, todo, sp>>
                \/ /\ (n = N \/ (Bug = "spawnstop" /\ n > 0)) /\ sp' = FALSE /\ pc' = "sig" /\ todo' = packs /\ UNCHANGED <<n, packs, pst, st>>
           ELSE pc' = "sig" /\ todo' = packs /\ UNCHANGED <<n, sp, packs, pst, st>>
        /\ UNCHANGED <<left, grave, kill, kat, endc, conv, lastf, hunts, log, best, told, cvd, crash, q, m2o, o2m, ev, stop, run, done, rec, sent, ret, ckv>>

(* the effect of one message of optimizer o (only if nothing was recorded about its end before) *)
Got(o, key, c, e, g, r) == IF o \in g THEN [c |-> c, e |-> e, g |-> g, r |-> r]
                           ELSE IF key = 0 THEN [c |-> c + 1, e |-> [e EXCEPT ![o] = "conv"], g |-> g \cup {o}, r |-> r]
                           ELSE IF key = 9 THEN [c |-> c, e |-> e, g |-> g, r |-> [r EXCEPT ![o] = @ + 1]]
                           ELSE [c |-> c, e |-> e, g |-> g, r |-> r]
RECURSIVE GotAll(_, _, _)
GotAll(o, ms, a) == IF ms = <<>> THEN a ELSE GotAll(o, Tail(ms), Got(o, Head(ms), a.c, a.e, a.g, a.r))
Cur == [c |-> conv, e |-> endc, g |-> grave, r |-> rec]
SetCur(a) == conv' = a.c /\ endc' = a.e /\ grave' = a.g /\ rec' = a.r

Sig == /\ At("sig")
       /\ IF todo = {} THEN pc' = "res" /\ left' = 2 /\ UNCHANGED <<todo, o2m, conv, endc, grave, rec>>
          ELSE LET o == Min(todo) IN
               /\ todo' = todo \ {o} /\ UNCHANGED <<pc, left>>
               /\ IF o \notin grave /\ o2m[o] /= <<>>
                  THEN o2m' = [o2m EXCEPT ![o] = Tail(@)] /\ SetCur(Got(o, Head(o2m[o]), conv, endc, grave, rec))
                  ELSE UNCHANGED <<o2m, conv, endc, grave, rec>>
       /\ UNCHANGED <<n, sp, packs, kill, kat, lastf, hunts, log, best, told, cvd, crash, q, m2o, st, pst, ev, stop, run, done, sent, ret, ckv>>

(* Accepting one entry of the queue, sharing the incumbent and hunting. *)
Candidates(b, lg, g) == {o \in packs : /\ MayBeHunted(TRUE, Len(SelectSeq(lg, LAMBDA r : r[1] = o)), o \in g /\ Bug /= "killended", o,
                                                      IF Bug = "huntself" THEN NoBest ELSE b)}
Accept ==
  LET it == Head(q)  o == it[1]  k == it[2] IN
  /\ q' = Tail(q)
  /\ IF k = 0 \/ (kill[o] > 0 /\ Bug /= "countkilled")
     THEN UNCHANGED <<log, best, lastf, hunts, kill, kat, endc, grave, m2o, told>>
     ELSE LET lg == IF Bug = "dup" /\ f = 1 THEN log \o <<it, it>> ELSE Append(log, it)
              b == IF Bug = "ties" /\ ev[o][k] <= best.v THEN [o |-> o, k |-> k, v |-> ev[o][k], id |-> f + 1]
                   ELSE Improve(best, o, k, ev[o][k], f + 1)
              s1 == IF SHARE /\ b /= best THEN [z \in Opt |-> IF z \in packs \cap Alive /\ z /= o THEN Append(m2o[z], 4) ELSE m2o[z]] ELSE m2o
          IN /\ log' = lg /\ best' = b
             /\ IF HuntDue(IF HF > 0 THEN 1 ELSE 0, HF, Len(lg), lastf, b)
                THEN /\ lastf' = Len(lg) /\ hunts' = hunts + 1
                     /\ \E vic \in SUBSET Candidates(b, lg, grave) :
                          /\ kill' = [z \in Opt |-> IF z \in vic THEN b.o ELSE kill[z]]
                          /\ kat' = [z \in Opt |-> IF z \in vic THEN Len(SelectSeq(lg, LAMBDA r : r[1] = z)) ELSE kat[z]]
                          /\ endc' = [z \in Opt |-> IF z \in vic THEN "killed" ELSE endc[z]]
                          /\ grave' = grave \cup vic
                          /\ m2o' = [z \in Opt |-> IF z \in vic /\ Bug /= "nosend" THEN Append(s1[z], 1) ELSE s1[z]]
                          /\ told' = told \cup vic
                ELSE m2o' = s1 /\ UNCHANGED <<lastf, hunts, kill, kat, endc, grave, told>>

Res == /\ At("res")
       /\ IF left = 0 \/ q = <<>> THEN pc' = "insp" /\ todo' = packs /\ left' = 0 /\ UNCHANGED <<q, log, best, lastf, hunts, kill, kat, endc, grave, m2o, told>>
          ELSE /\ Accept
               /\ left' = IF Head(q)[2] = 0 THEN left ELSE left - 1
               /\ UNCHANGED <<pc, todo>>
       /\ UNCHANGED <<n, sp, packs, conv, cvd, crash, o2m, st, pst, ev, stop, run, done, rec, sent, ret, ckv>>

(* the end of an optimizer found dead *)
Dead(o, a) == LET b == IF Bug = "onesig" /\ o2m[o] /= <<>> THEN Got(o, Head(o2m[o]), a.c, a.e, a.g, a.r) ELSE GotAll(o, o2m[o], a) IN
              IF o \in b.g THEN b
              ELSE IF ret[o] = "ok" THEN [b EXCEPT !.c = @ + 1, !.e[o] = "silent", !.g = @ \cup {o}]
              ELSE [b EXCEPT !.e[o] = "error", !.g = @ \cup {o}]
Insp == /\ At("insp")
        /\ IF todo = {} THEN pc' = "cond" /\ packs' = packs \ {o \in packs : pst[o] = 2 /\ o \in grave}
                             /\ UNCHANGED <<todo, conv, endc, grave, rec, o2m, st, pst, ret, forced>>
           ELSE LET o == Min(todo) IN
                /\ todo' = todo \ {o} /\ UNCHANGED <<pc, packs>>
                /\ IF pst[o] = 2 /\ o \notin grave
                   THEN SetCur(Dead(o, Cur)) /\ o2m' = [o2m EXCEPT ![o] = <<>>] /\ UNCHANGED <<st, pst, ret, forced>>
                   ELSE IF st[o] = "hung"
                   THEN /\ Term(o) /\ grave' = grave \cup {o}
                        /\ endc' = IF endc[o] = "conv" /\ Bug /= "endtwice" THEN endc ELSE [endc EXCEPT ![o] = "forced"]
                        /\ forced' = forced \cup {o} /\ UNCHANGED <<conv, rec, o2m>>
                   ELSE UNCHANGED <<conv, endc, grave, rec, o2m, st, pst, ret, forced>>
        /\ UNCHANGED <<left, n, sp, kill, kat, lastf, hunts, log, best, told, cvd, crash, q, m2o, ev, stop, run, done, sent, wait, notc, msgd, saved, fail, snap, nck, ses, fin>>

Cond == /\ At("cond")
        /\ LET c == f >= FMAX
               over == packs = {} /\ (q = <<>> \/ Bug = "lostq") /\ ~sp
           IN /\ cvd' = (c \/ over)
              /\ \/ nck < CK /\ pc' = "ck1"
                 \/ pc' = IF c \/ over THEN "stop" ELSE "fill"
        /\ UNCHANGED <<todo, left, n, sp, packs, grave, kill, kat, endc, conv, lastf, hunts, log, best, told, crash, q, m2o, o2m, opts, ckv>>

(* a user component or the user interrupts the loop *)
Crash == /\ "crash" \in Faults /\ pc \in {"fill", "res", "cond"} /\ crash' = TRUE /\ pc' = "stop"
         /\ UNCHANGED <<todo, left, n, sp, packs, grave, kill, kat, endc, conv, lastf, hunts, log, best, told, cvd, q, m2o, o2m, opts, ckv>>

-----------------------------------------------------------------------------------------------------------------------
(* Checkpoints *)
Ck1 == /\ At("ck1") /\ pc' = "ck2"
       /\ LET a == packs \cap Alive IN
          /\ msgd' = a /\ wait' = a /\ notc' = a \cap grave
          /\ m2o' = [o \in Opt |-> IF o \in a THEN Append(m2o[o], 2) ELSE m2o[o]]
       /\ saved' = [o \in Opt |-> -1] /\ fail' = FALSE /\ nck' = nck + 1
       /\ UNCHANGED <<todo, left, n, sp, packs, grave, kill, kat, endc, conv, lastf, hunts, log, best, told, cvd, crash, q, o2m, opts, snap, ses, fin, forced>>
(* wait for everyone: paused, ended or dead; keep the queue moving *)
Ck2a == /\ At("ck2") /\ wait /= {} /\ Len(q) >= QS /\ Bug /= "ckfull"
        /\ Accept
        /\ notc' = notc \cup (IF Head(q)[2] = 0 THEN {Head(q)[1]} ELSE {}) \cup {o \in Opt : kill'[o] > 0}
        /\ UNCHANGED <<pc, todo, left, n, sp, packs, conv, cvd, crash, o2m, st, pst, ev, stop, run, done, rec, sent, ret, wait, msgd, saved, fail, snap, nck, ses, fin, forced>>
Ck2b(o) == /\ At("ck2") /\ o \in wait
           /\ IF pst[o] = 2
              THEN wait' = wait \ {o} /\ notc' = notc \cup {o} /\ UNCHANGED <<o2m, conv, endc, grave, rec, st, pst, ret, forced>>
              ELSE IF o2m[o] /= <<>>
              THEN /\ o2m' = [o2m EXCEPT ![o] = Tail(@)]
                   /\ IF Head(o2m[o]) = 1 THEN wait' = wait \ {o} /\ UNCHANGED <<notc, conv, endc, grave, rec>>
                      ELSE /\ (IF Bug = "ckdrop" THEN UNCHANGED <<conv, endc, grave, rec>>
                               ELSE SetCur(Got(o, Head(o2m[o]), conv, endc, grave, rec)))
                           /\ notc' = (IF Head(o2m[o]) = 0 THEN notc \cup {o} ELSE notc) /\ wait' = wait
                   /\ UNCHANGED <<st, pst, ret, forced>>
              ELSE /\ st[o] = "hung" /\ Bug /= "ckhang"
                   /\ Term(o) /\ grave' = grave \cup {o} /\ endc' = IF endc[o] = "none" THEN [endc EXCEPT ![o] = "forced"] ELSE endc
                   /\ forced' = forced \cup {o} /\ UNCHANGED <<wait, notc, conv, rec, o2m>>
           /\ UNCHANGED <<pc, todo, left, n, sp, packs, kill, kat, lastf, hunts, log, best, told, cvd, crash, q, m2o, ev, stop, run, done, sent, msgd, saved, fail, snap, nck, ses, fin>>
RECURSIVE DeadAll(_, _)
DeadAll(S, a) == IF S = {} THEN a ELSE LET o == Min(S) IN DeadAll(S \ {o}, Dead(o, a))
Ck2c == /\ At("ck2") /\ wait = {}
        /\ LET D == {o \in packs : pst[o] = 2 /\ o \notin grave} IN
           IF Bug = "cknodead" THEN UNCHANGED <<conv, endc, grave, rec, o2m>>
           ELSE SetCur(DeadAll(D, Cur)) /\ o2m' = [o \in Opt |-> IF o \in D THEN <<>> ELSE o2m[o]]
        /\ pc' = "ck3"
        /\ UNCHANGED <<todo, left, n, sp, packs, kill, kat, lastf, hunts, log, best, told, cvd, crash, q, m2o, st, pst, ev, stop, run, done, sent, ret, ckv>>
Ck3 == /\ At("ck3")
       /\ IF q /= <<>> /\ Bug /= "ckcut"
          THEN /\ Accept
               /\ notc' = notc \cup (IF Head(q)[2] = 0 THEN {Head(q)[1]} ELSE {}) \cup {o \in Opt : kill'[o] > 0}
               /\ UNCHANGED <<pc, wait>>
          ELSE /\ pc' = "ck4" /\ wait' = msgd /\ UNCHANGED <<q, log, best, lastf, hunts, kill, kat, endc, grave, m2o, told, notc>>
       /\ UNCHANGED <<todo, left, n, sp, packs, conv, cvd, crash, o2m, st, pst, ev, stop, run, done, rec, sent, ret, msgd, saved, fail, snap, nck, ses, fin, forced>>
(* instructions: save or pass *)
Ck4 == /\ At("ck4") /\ pc' = "ck5"
       /\ m2o' = [o \in Opt |-> IF o \in msgd /\ pst[o] = 1
                                THEN Append(m2o[o], IF o \in notc THEN 3 ELSE 0) ELSE m2o[o]]
       /\ UNCHANGED <<todo, left, n, sp, packs, grave, kill, kat, endc, conv, lastf, hunts, log, best, told, cvd, crash, q, o2m, opts, ckv>>
Ck5 == /\ At("ck5") /\ \A o \in msgd : (~run[o]) \/ (pst[o] = 2 /\ Bug /= "ckdie")
       /\ fail' = (\E o \in msgd \ notc : saved[o] < 0)
       /\ pc' = "ck6"
       /\ UNCHANGED <<todo, left, n, sp, packs, grave, kill, kat, endc, conv, lastf, hunts, log, best, told, cvd, crash, q, m2o, o2m, opts, wait, notc, msgd, saved, snap, nck, ses, fin, forced>>
Snapshot == [ok |-> 1, n |-> n, sp |-> sp, grave |-> grave, kill |-> kill, kat |-> kat, endc |-> endc, conv |-> conv, lastf |-> lastf, hunts |-> hunts,
             log |-> log, best |-> best, S |-> {o \in msgd \ notc : saved[o] >= 0}, at |-> saved, rec |-> rec, sent |-> sent,
             done |-> done, forced |-> forced, ret |-> ret, stp |-> stop, ev |-> ev]
Ck6 == /\ At("ck6")
       /\ snap' = IF fail THEN snap ELSE Snapshot
       /\ run' = IF Bug = "norelease" /\ fail THEN run ELSE [o \in Opt |-> TRUE]
       /\ m2o' = IF cvd THEN [o \in Opt |-> IF o \in packs /\ pst[o] = 1 THEN Append(m2o[o], 1) ELSE m2o[o]] ELSE m2o
       /\ pc' = IF cvd THEN "stop" ELSE "fill"
       /\ UNCHANGED <<todo, left, n, sp, packs, grave, kill, kat, endc, conv, lastf, hunts, log, best, told, cvd, crash, q, o2m, st, pst, ev, stop, done, rec, sent, ret, wait, notc, msgd, saved, fail, nck, ses, fin, forced>>

-----------------------------------------------------------------------------------------------------------------------
(* The end of a session *)
Stop == /\ At("stop") /\ pc' = "join" /\ todo' = packs
        /\ m2o' = [o \in Opt |-> IF o \in packs /\ pst[o] = 1 /\ Bug /= "nostop" THEN Append(m2o[o], 1) ELSE m2o[o]]
        /\ told' = told \cup packs
        /\ UNCHANGED <<left, n, sp, packs, grave, kill, kat, endc, conv, lastf, hunts, log, best, cvd, crash, q, o2m, opts, ckv>>
Drop == /\ pc = "join" /\ q /= <<>> /\ Bug /= "nodrain" /\ q' = Tail(q)
        /\ UNCHANGED <<mgr, m2o, o2m, opts, ckv>>
Join == /\ At("join")
        /\ IF todo = {} THEN pc' = "ret" /\ UNCHANGED <<todo, endc, grave, st, pst, ret>>
           ELSE LET o == Min(todo) IN
                /\ endc' = IF endc[o] = "none" THEN [endc EXCEPT ![o] = IF crash THEN "crash" ELSE "gconv"] ELSE endc
                /\ grave' = grave \cup {o} /\ pc' = pc
                /\ IF pst[o] = 2 THEN todo' = todo \ {o} /\ UNCHANGED <<st, pst, ret>>
                           \* one that does not stop in time is terminated
                   ELSE st[o] \in {"hung", "held", "paused"} /\ Term(o) /\ todo' = todo
        /\ UNCHANGED <<left, n, sp, packs, kill, kat, conv, lastf, hunts, log, best, told, cvd, crash, q, m2o, o2m, ev, stop, run, done, rec, sent, ckv>>

(* A later session restored from the checkpoint: whenever the session before has ended, however far it had come. *)
Resume == /\ ses < SES /\ snap.ok = 1 /\ pc = "ret"
          /\ ses' = ses + 1 /\ pc' = "fill" /\ todo' = {} /\ left' = 0
          /\ n' = snap.n /\ sp' = snap.sp /\ packs' = snap.S /\ grave' = snap.grave /\ kill' = snap.kill /\ kat' = snap.kat /\ endc' = snap.endc
          /\ conv' = snap.conv /\ lastf' = snap.lastf /\ hunts' = snap.hunts /\ log' = snap.log /\ best' = snap.best /\ told' = {}
          /\ cvd' = FALSE /\ crash' = FALSE
          /\ q' = <<>> /\ m2o' = [o \in Opt |-> <<>>] /\ o2m' = [o \in Opt |-> <<>>]
          /\ pst' = [o \in Opt |-> IF o \in snap.S THEN 1 ELSE IF o <= snap.n THEN 2 ELSE 0]
          /\ st' = [o \in Opt |-> IF o \in snap.S THEN "run" ELSE IF o <= snap.n THEN "gone" ELSE "new"]
          /\ ev' = [o \in Opt |-> IF o \in snap.S THEN SubSeq(ev[o], 1, snap.at[o]) ELSE IF o <= snap.n THEN snap.ev[o] ELSE <<>>]
          /\ stop' = [o \in Opt |-> IF o \in snap.S THEN snap.stp[o] ELSE FALSE] /\ run' = [o \in Opt |-> TRUE]
          /\ done' = [o \in Opt |-> IF o \in snap.S THEN "no" ELSE snap.done[o]]
          /\ rec' = snap.rec /\ sent' = [o \in Opt |-> IF o \in snap.S THEN snap.rec[o] ELSE snap.sent[o]]
          /\ ret' = [o \in Opt |-> IF o \in snap.S THEN "run" ELSE IF o <= snap.n THEN snap.ret[o] ELSE "run"]
          /\ forced' = snap.forced
          /\ wait' = {} /\ notc' = {} /\ msgd' = {} /\ saved' = [o \in Opt |-> -1] /\ fail' = FALSE /\ UNCHANGED <<snap, nck, fin>>

Mgr == Fill \/ Sig \/ Res \/ Insp \/ Cond \/ Ck1 \/ Ck2a \/ (\E o \in Opt : Ck2b(o)) \/ Ck2c \/ Ck3 \/ Ck4 \/ Ck5 \/ Ck6 \/ Stop \/ Drop \/ Join
Next == Mgr \/ Resume \/ Crash \/ \E o \in Opt : OptStep(o) \/ Note(o) \/ Die(o) \/ Hang(o)
Fair == WF_vars(Mgr) /\ WF_vars(Drop) /\ \A o \in Opt : WF_vars(OptStep(o)) /\ WF_vars(Ck2b(o))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------------------------------------------------
(* Properties *)
InCk == pc \in {"ck1", "ck2", "ck3", "ck4", "ck5", "ck6"}
Over == pc \in {"stop", "join", "ret"}
Mine(o) == SelectSeq(log, LAMBDA r : r[1] = o)
Queued(o) == SelectSeq(q, LAMBDA r : r[1] = o /\ r[2] > 0)

(* P01: every evaluation made is accepted once and in order; the incumbent is the earliest best one *)
Accounting == \A o \in Opt : Mine(o) = [j \in 1..Acc(o) |-> <<o, j>>] /\ Acc(o) <= Len(ev[o])
NothingLost == ~Over => \A o \in Opt : kill[o] = 0 =>
                  Mine(o) \o Queued(o) = [j \in 1..(Len(ev[o]) - (IF st[o] = "put" THEN 1 ELSE 0)) |-> <<o, j>>]
IncumbentOK == \/ best = NoBest /\ \A j \in 1..f : ~Better(ev[log[j][1]][log[j][2]], INF)
               \/ /\ best.id \in 1..f /\ log[best.id] = <<best.o, best.k>> /\ ev[best.o][best.k] = best.v
                  /\ \A j \in 1..f : ~Better(ev[log[j][1]][log[j][2]], best.v)
                  /\ \A j \in 1..best.id - 1 : Better(best.v, ev[log[j][1]][log[j][2]])
NotAfterKill == \A o \in Opt : kill[o] > 0 => Acc(o) = kat[o]
(* P02 *)
QueueBound == Len(q) <= QS
(* P03 *)
Slots == Cardinality(Alive) <= J
Busy == ~sp => n = N
(* P04: the holder of the incumbent is never hunted (at that time), nobody is killed twice or after its end *)
KillsOK == /\ \A o \in Opt : kill[o] > 0 => kill[o] /= o /\ endc[o] \in {"killed", "forced"} /\ o \in told \cup (IF ses > 1 THEN Opt ELSE {})
           /\ hunts * (IF HF = 0 THEN 1 ELSE HF) <= f
KillDelivered == \A o \in Opt : (kill[o] > 0 /\ pst[o] = 1 /\ ~stop[o]) =>
                    \E j \in 1..Len(m2o[o]) : m2o[o][j] = 1
(* P05: ends *)
EndTruth == \A o \in Opt :
   CASE endc[o] = "conv" -> done[o] = "conv"
     [] endc[o] = "silent" -> done[o] \in {"silent"} /\ ret[o] = "ok"
     [] endc[o] = "error" -> ret[o] = "err"
     [] endc[o] = "killed" -> kill[o] > 0
     [] endc[o] = "forced" -> o \in forced
     [] endc[o] = "crash" -> crash
     [] endc[o] = "gconv" -> ~crash /\ Over
     [] OTHER -> TRUE
EndStable == [][ses' = ses => \A o \in Opt : endc[o] \notin {"none", "killed"} => endc'[o] = endc[o]]_vars
EndAll == pc = "ret" => \A o \in 1..n : endc[o] /= "none" /\ o \in grave
Counters == conv = Cardinality({o \in Opt : endc[o] \in {"conv", "silent"}})
(* an end which was announced in time is not replaced by the general one *)
EndKept == (pc = "ret" /\ ~crash /\ cvd /\ f < FMAX) => \A o \in 1..n : endc[o] /= "gconv"
(* P06: the cut is consistent *)
Cut == snap.ok = 1 =>
   /\ \A o \in snap.S : /\ snap.at[o] = Len(SelectSeq(snap.log, LAMBDA r : r[1] = o))
                        /\ o \notin snap.grave /\ snap.endc[o] = "none" /\ snap.kill[o] = 0
   /\ \A o \in 1..snap.n : o \in snap.S \/ (o \in snap.grave /\ snap.endc[o] /= "none")
(* P08: nobody makes an evaluation between saving and release; afterwards everybody is released *)
Still == \A o \in Opt : (pc = "ck6" /\ o \in msgd \ notc /\ pst[o] = 1) => Len(ev[o]) = saved[o] \/ saved[o] < 0
Released == pc \in {"fill", "sig", "res", "insp", "cond"} => \A o \in Opt : run[o] /\ st[o] \notin {"held", "pass", "save"}
(* P09 *)
Orderly == pc = "ret" => \A o \in Opt : pst[o] /= 1
(* P10: reasons for ending *)
Reason == pc \in {"stop", "join", "ret"} => (crash \/ cvd)
AllIn == (pc = "stop" /\ cvd /\ f < FMAX /\ ~crash) => \A o \in 1..n : kill[o] > 0 \/ Acc(o) = Len(ev[o]) \/ (ret[o] /= "ok" /\ Acc(o) >= Len(ev[o]) - 1)
(* P14: messages of optimizers which ended on their own *)
Messages == \A o \in Opt : rec[o] <= sent[o] /\
            ((endc[o] \in {"conv", "silent", "error"} /\ pst[o] = 2 /\ o \notin packs /\ kill[o] = 0) => rec[o] = sent[o])
(* P09, P08, P02: every session ends *)
Ends_ == []<>(pc = "ret")
CkEnds == InCk ~> ~InCk
====
