---- MODULE ConfTrace ----
(* P28. A manager is configured exactly as asked, or refuses and stays unconfigured. Values of the arguments are      *)
(* numbered: 0 omitted, positive ones valid, negative ones invalid (or without effect, see below).                     *)
EXTENDS Monitor

Fresh == <<0, 0, 0>>
Ran == <<17, 3, 2>>   \* what a manager is made to look like before its checkpoint
RStart(t) == [i |-> 0, bad |-> {}, init |-> 0, conf |-> [none |-> 0], ck |-> [none |-> 0], used |-> Fresh]

\* errors which an invalid value calls for
Errors(a) ==
  (IF a.task < 0 THEN {"TypeError"} ELSE {}) \cup (IF a.opt_selector < 0 THEN {"TypeError"} ELSE {})
  \cup (IF a.bounds < 0 THEN {"ValueError"} ELSE {})
  \cup (IF a.max_jobs \in {-1, -2} THEN {"TypeError"} ELSE IF a.max_jobs = -3 THEN {"ValueError"} ELSE {})
  \cup (IF a.convergence_checker < 0 THEN {"TypeError"} ELSE {}) \cup (IF a.x0_generator < 0 THEN {"TypeError"} ELSE {})
  \cup (IF a.killing_conditions < 0 THEN {"TypeError"} ELSE {})
Warns(a) == a.backend < 0 \/ a.working_dir < 0

Proc(b) == IF b = 2 THEN 0 ELSE 1
Daemon(b) == IF b = 3 THEN 0 ELSE 1
Same == {"task", "bounds", "opt_selector", "overwrite_existing", "max_jobs", "convergence_checker", "x0_generator", "share_best_solutions",
         "summary_files", "is_log_detailed", "visualisation", "aggressive_kill", "split_printstreams"}
\* what is omitted or not understood falls back to the documented default
New(a) ==
  [k \in Same \cup {"working_dir", "proc", "daemon", "killing_conditions", "checkpoint_control", "hunt_frequency", "status_frequency", "forced",
                    "end_timeout"} |->
   CASE k \in Same -> a[k]
     [] k = "working_dir" -> IF a.working_dir < 0 THEN 0 ELSE a.working_dir
     [] k = "proc" -> Proc(a.backend)
     [] k = "daemon" -> Daemon(a.backend)
     [] k = "killing_conditions" -> IF a.killing_conditions = 0 THEN -1 ELSE a.killing_conditions
     [] k = "checkpoint_control" -> IF a.checkpoint_control <= 0 THEN -1 ELSE a.checkpoint_control
     [] k = "hunt_frequency" -> IF a.hunt_frequency = 0 THEN 100 ELSE a.hunt_frequency
     [] k = "status_frequency" -> IF a.status_frequency = 0 THEN 600 ELSE a.status_frequency
     [] k = "forced" -> IF a.force_terminations_after > 0 THEN 1 ELSE 0
     [] k = "end_timeout" -> IF a.end_timeout > 0 THEN a.end_timeout ELSE IF a.backend = 2 THEN 0 ELSE 10]
\* settings given when a checkpoint is loaded replace those saved
Over(c, a, task) ==
  [k \in DOMAIN c |->
   CASE k = "task" -> task
     [] k = "proc" -> IF a.backend = 0 THEN c.proc ELSE Proc(a.backend)
     [] k = "daemon" -> IF a.backend = 0 THEN c.daemon ELSE Daemon(a.backend)
     [] k = "forced" -> IF a.force_terminations_after = 0 THEN c.forced ELSE IF a.force_terminations_after > 0 THEN 1 ELSE 0
     [] k = "bounds" -> c.bounds
     [] OTHER -> IF a[k] = 0 THEN c[k] ELSE a[k]]

Shown(x, o, c, used, from) ==
  LET a == F(x, \A k \in DOMAIN c: o[k] = c[k], "P28", "not configured as asked")
      b == F(a, o.used = used, "P28", "history not that of the " \o from)
  IN F(b, c.visualisation = 0 \/ o.scope = 1, "P28", "no scope")

\* the task comes from the checkpoint; if that has none from the loader; if that fails from the caller
Task(x, e, shy) ==
  IF shy = 0 THEN x.ck.task
  ELSE IF e.loader = 1 THEN (IF shy = 2 THEN x.ck.task ELSE 9)
  ELSE IF e.task = 1 THEN 8 ELSE 0

RDo(x, e) ==
  LET shy == Traces[tr].sc.shy IN
  CASE e.ev = "new" -> [x EXCEPT !.init = 0]
    [] e.ev = "setup" ->
         IF x.init = 1 THEN Shown(F(F(x, e.err = "", "P28", "second setup raised"), e.warn > 0, "P28", "second setup not reported"), e.o, x.conf, x.used, "first configuration")
         ELSE IF Errors(e.a) # {}
              THEN F(F(x, e.err \in Errors(e.a), "P28", "invalid setting not refused"), e.o.init = 0, "P28", "initialised although refused")
              ELSE LET a == F(x, e.err = "" /\ e.o.init = 1, "P28", "valid settings refused")
                       b == F(a, ~Warns(e.a) \/ e.warn > 0, "P28", "setting not understood without a warning")
                   IN IF e.o.init = 1 THEN [Shown(b, e.o, New(e.a), Fresh, "new start") EXCEPT !.init = 1, !.used = Fresh, !.conf = New(e.a)] ELSE b
    [] e.ev = "ckpt" -> [F(x, e.made = 1, "P28", "no checkpoint") EXCEPT !.ck = x.conf, !.used = Ran]
    [] e.ev = "start" -> F(F(x, e.err = "" /\ e.res = 1 /\ e.warn > 0, "P28", "start of an unconfigured manager"), e.o.init = 0, "P28", "initialised by start")
    [] e.ev = "load" ->
         IF x.init = 1 THEN Shown(F(F(x, e.err = "", "P28", "second load raised"), e.warn > 0, "P28", "second load not reported"), e.o, x.conf, x.used, "first configuration")
         ELSE LET t == IF e.path # 0 THEN 0 ELSE Task(x, e, shy)
              IN IF t = 0 THEN F(F(x, e.err # "", "P28", "loaded without a checkpoint or task"), e.o.init = 0, "P28", "initialised although loading failed")
                 ELSE LET a == F(x, e.err = "" /\ e.o.init = 1, "P28", "checkpoint not loaded")
                      IN IF e.o.init = 1 THEN [Shown(a, e.o, Over(x.ck, e.a, t), Ran, "checkpoint") EXCEPT !.init = 1, !.used = Ran, !.conf = Over(x.ck, e.a, t)] ELSE a
    [] OTHER -> x
====
