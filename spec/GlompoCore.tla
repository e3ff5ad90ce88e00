---- MODULE GlompoCore ----
(* The rules of a managed optimization, as pure operators. They are shared by the design model (Glompo.tla, checked     *)
(* exhaustively by TLC) and by the trace monitor (GlompoTrace.tla, which decides recorded behaviour of the real code).  *)
EXTENDS Integers, Sequences, FiniteSets

INF  == 900000   \* encoding of +infinity
NAN  == 900001   \* encoding of not-a-number: greater than everything, hence never better than anything
NONE == 999999   \* encoding of "no value"

-----------------------------------------------------------------------------------------------------------------------
(* P01: the incumbent *)
Better(v, w) == v < w
NoBest == [o |-> 0, k |-> 0, v |-> INF, id |-> 0]
Improve(best, o, k, v, id) == IF Better(v, best.v) THEN [o |-> o, k |-> k, v |-> v, id |-> id] ELSE best

(* What a user component sees of the incumbent: origin, point and value. *)
Incumbent(f, best) ==
  IF f = 0 THEN [bo |-> -1, xo |-> 0, xk |-> 0, bv |-> NONE]
  ELSE [bo |-> best.o, xo |-> best.o, xk |-> best.k, bv |-> best.v]

(* P04: when is a hunt due, and who is hunted *)
HuntDue(hunter, hf, f, lastHunt, best) == hunter = 1 /\ best.o > 0 /\ f - lastHunt >= hf
MayBeHunted(started, acc, ended, o, best) == started /\ acc > 0 /\ ~ended /\ o /= best.o

(* P05: the one end condition of an optimizer, from what happened to it *)
OwnEnd(code) == IF code = 0 THEN "silent" ELSE "error"
ExitEnd(crashed) == IF crashed THEN "crash" ELSE "gconv"

(* P03 *)
RECURSIVE SumW(_, _)
SumW(w, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN w[x] + SumW(w, S \ {x})

(* P07: how many earlier checkpoints a successful checkpoint removes (always the oldest) *)
Removed(keep, before) == IF keep < 0 \/ before <= keep THEN 0 ELSE before - keep

IsPrefix(a, b) == Len(a) <= Len(b) /\ \A z \in 1..Len(a) : a[z] = b[z]
Range(q) == {q[z] : z \in 1..Len(q)}
====
