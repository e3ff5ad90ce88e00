---- MODULE DirTrace ----
(* P16. What a start does to the files found in its working directory. Classes of files: yml (summary), h5 (log), img   *)
(* (plots), str (print streams) and other (anything which is not a result of the tool).                                 *)
EXTENDS Monitor

DStart(t) == [i |-> 0, bad |-> {}, ow |-> 0, resume |-> 0, res |-> {}, went |-> 0]
SeqSet(q) == {q[j] : j \in 1..Len(q)}
Results(fs, resume) == {f.n : f \in {g \in SeqSet(fs) : g.c \in {"yml", "img"} \cup (IF resume = 1 THEN {} ELSE {"h5"})}}
DDo(x, e) ==
  CASE e.ev = "before" -> [x EXCEPT !.ow = e.ow, !.resume = e.resume, !.res = Results(e.files, e.resume)]
    [] e.ev = "after" ->
         LET fs == SeqSet(e.files)
             refuse == x.res /= {} /\ x.ow = 0
             a == F(x, refuse <=> e.err = "FileExistsError", "P16", "a start over earlier results must be refused exactly if overwriting is not allowed")
             b == F(a, e.err \in {"", "FileExistsError"}, "P16", "the start failed")
             c == F(b, ~refuse \/ ((\A f \in fs : f.st = "same") /\ e.new = <<>>), "P16", "a refused start changed files")
             d == F(c, \A f \in fs : f.c = "other" => f.st = "same", "P16", "a file which is not an earlier result was changed or removed")
             g == F(d, \A f \in SeqSet(e.new) : f.c /= "other", "P16", "files which are not results were created")
             h == F(g, (x.ow = 0 /\ x.resume = 0) => \A f \in fs : f.c \in {"yml", "img", "h5"} => f.st = "same", "P16", "an earlier result was changed without permission")
             k == F(h, x.resume = 0 \/ (e.kept = 1 /\ \A f \in fs : f.c = "h5" => f.st /= "gone"), "P16/P15", "the log of the run being resumed was removed")
             l == F(k, x.ow = 0 \/ refuse \/ e.err /= "" \/ \A f \in fs : f.n \in x.res => f.st /= "same", "P16", "old results were left among the new ones")
         IN F(l, e.emptyd = 1, "P16", "an empty directory was removed")
    [] e.ev = "stuck" -> F(x, FALSE, "P16", "the run hangs")
    [] OTHER -> x
====
