---- MODULE Monitor ----
(* Frame of a trace monitor: a behaviour per recorded trace, a total step operator, and the set of rules broken so far. *)
(* A monitor module instantiates it by naming Start(sc) (the abstract state in which a trace begins) and Do(x, e) (the  *)
(* abstract state after event e). Rules are asserted with F(x, condition, property, name).                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Start(_), Do(_, _)

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, s

F(x, ok, tag, name) == IF ok \/ Cardinality(x.bad) > 12 THEN x ELSE [x EXCEPT !.bad = @ \cup {<<tag, name, x.i>>}]
Range(q) == {q[z] : z \in 1..Len(q)}
SeqMap(q, Op(_)) == [z \in 1..Len(q) |-> Op(q[z])]

MInit == /\ tr \in 1..Len(Traces)
         /\ i = 0
         /\ s = Start(Traces[tr])
MNext == /\ i < Len(Traces[tr].ev)
         /\ i' = i + 1
         /\ s' = LET e == Traces[tr].ev[i + 1] IN
                 IF e.ev = "failed" THEN F([s EXCEPT !.i = i + 1], FALSE, e.tag, "unexpected failure: " \o e.err)
                 ELSE Do([s EXCEPT !.i = i + 1], e)
         /\ tr' = tr
         /\ (i' = Len(Traces[tr].ev) => PrintT("VERDICT " \o ToJson([id |-> Traces[tr].id, bad |-> s'.bad, fin |-> 1])))
MSpec == MInit /\ [][MNext]_<<tr, i, s>>
MView == <<tr, i>>
====
