---- MODULE ChunkQueue ----
(* Design of the results queue (P02): producers hand over results one by one; a producer meeting the full queue opens a *)
(* cache guarded by a lock, and from then on full caches travel as one entry (a chunk). The last thing a producer puts  *)
(* is its end notice (0), which flushes the cache. Steps are as fine as the locks of the implementation.                *)
(* Bug names a design mistake; each must break one of the properties (the properties are not vacuous).                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, Items, Size, Chunk, Bug

VARIABLES q,      \* the queue: a sequence of chunks
          cache, lock, fast,
          pc, n,  \* control point of each producer; how many of its results are put (Items + 1: the end notice too)
          got     \* how many entries of each producer the consumer obtained (-1: not in order)
vars == <<q, cache, lock, fast, pc, n, got>>
Free == 0

Item(p) == IF n[p] < Items THEN <<p, n[p] + 1>> ELSE <<p, 0>>
IsEnd(p) == n[p] = Items

Init == /\ q = <<>> /\ cache = <<>> /\ lock = Free /\ fast = FALSE
        /\ pc = [p \in P |-> "ready"] /\ n = [p \in P |-> 0] /\ got = [p \in P |-> 0]

Done(p) == /\ n' = [n EXCEPT ![p] = @ + 1]
           /\ pc' = [pc EXCEPT ![p] = IF n[p] = Items THEN "over" ELSE "ready"]

(* read the mode *)
Begin(p) == /\ pc[p] = "ready"
            /\ pc' = [pc EXCEPT ![p] = IF fast THEN "lockf" ELSE "direct"]
            /\ UNCHANGED <<q, cache, lock, fast, n, got>>
(* straight into the queue *)
Direct(p) == /\ pc[p] = "direct"
             /\ IF Len(q) < Size \/ (Bug = "nobound" /\ Len(q) <= Size)
                THEN /\ q' = Append(q, <<Item(p)>>) /\ Done(p) /\ UNCHANGED <<cache, lock, fast, got>>
                ELSE /\ ~IsEnd(p)  \* the end notice waits for room
                     /\ IF Bug = "drop" THEN Done(p) ELSE n' = n /\ pc' = [pc EXCEPT ![p] = "locko"]
                     /\ UNCHANGED <<q, cache, lock, fast, got>>
(* the queue was full: open the cache *)
LockOpen(p) == /\ pc[p] = "locko" /\ lock = Free /\ lock' = p
               /\ pc' = [pc EXCEPT ![p] = "open"] /\ UNCHANGED <<q, cache, fast, n, got>>
Open(p) == /\ pc[p] = "open"
           /\ fast' = TRUE /\ cache' = Append(cache, Item(p)) /\ lock' = Free /\ Done(p)
           /\ UNCHANGED <<q, got>>
(* put through the cache *)
LockFast(p) == /\ pc[p] = "lockf" /\ (lock = Free \/ Bug = "nolock") /\ lock' = p
               /\ pc' = [pc EXCEPT ![p] = "add"] /\ UNCHANGED <<q, cache, fast, n, got>>
Add(p) == /\ pc[p] = "add"
          /\ cache' = Append(cache, Item(p))
          /\ IF Len(cache) + 1 >= Chunk \/ IsEnd(p)
             THEN pc' = [pc EXCEPT ![p] = "hand"] /\ UNCHANGED <<lock, n>>
             ELSE lock' = Free /\ Done(p)
          /\ UNCHANGED <<q, fast, got>>
Hand(p) == /\ pc[p] = "hand"
           /\ Len(q) < Size
           /\ IF Bug = "keep" THEN q' = Append(q, cache) /\ cache' = cache /\ lock' = Free /\ Done(p)
              ELSE IF Bug = "nolock" THEN q' = Append(q, cache) /\ UNCHANGED <<cache, lock, n>> /\ pc' = [pc EXCEPT ![p] = "clear"]
              ELSE IF Bug = "lockheld" /\ IsEnd(p) THEN q' = Append(q, cache) /\ cache' = <<>> /\ lock' = lock /\ Done(p)
              ELSE q' = Append(q, cache) /\ cache' = <<>> /\ lock' = Free /\ Done(p)
           /\ UNCHANGED <<fast, got>>
Clear(p) == /\ pc[p] = "clear" /\ cache' = <<>> /\ lock' = Free /\ Done(p) /\ UNCHANGED <<q, fast, got>>

RECURSIVE Take(_, _)
Take(g, c) == IF c = <<>> THEN g
              ELSE LET it == Head(c) IN
                   Take([g EXCEPT ![it[1]] = IF @ >= 0 /\ it[2] = (IF @ < Items THEN @ + 1 ELSE 0) THEN @ + 1 ELSE -1], Tail(c))
Get == /\ q /= <<>>
       /\ got' = Take(got, IF Bug = "lifo" THEN q[Len(q)] ELSE Head(q))
       /\ q' = IF Bug = "lifo" THEN SubSeq(q, 1, Len(q) - 1) ELSE Tail(q)
       /\ UNCHANGED <<cache, lock, fast, pc, n>>

Step(p) == Begin(p) \/ Direct(p) \/ LockOpen(p) \/ Open(p) \/ LockFast(p) \/ Add(p) \/ Hand(p) \/ Clear(p)
Next == (\E p \in P : Step(p)) \/ Get
Spec == Init /\ [][Next]_vars /\ WF_vars(Get) /\ \A p \in P : SF_vars(Step(p))

-----------------------------------------------------------------------------------------------------------------------
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Of(p, s) == SelectSeq(s, LAMBDA it : it[1] = p)
Ref(a, b) == [j \in 1..(b - a) |-> IF a + j <= Items THEN a + j ELSE 0]

Bound == Len(q) <= Size
(* everything put is obtained, queued or cached exactly once and in order (while no producer holds the cache) *)
Exact == lock = Free => \A p \in P : LET r == Of(p, Flat(q) \o cache) IN [j \in 1..Len(r) |-> r[j][2]] = Ref(got[p], n[p])
Fifo == \A p \in P : got[p] >= 0
(* a chunk is larger than configured only by those who met the full queue together *)
ChunkBound == \A j \in 1..Len(q) : Len(q[j]) <= (IF Chunk < 2 THEN 2 ELSE Chunk) + Cardinality(P)
(* nobody is kept waiting and nothing is kept back *)
Through == <>[](\A p \in P : pc[p] = "over" /\ got[p] = Items + 1)
====
