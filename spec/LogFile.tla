---- MODULE LogFile ----
(* Design of the log file over several sessions (P15, P06): evaluations are kept in chunks before they are written; a   *)
(* checkpoint writes them all and remembers the checksum of the file; a session may end or be killed; a resume is only  *)
(* accepted by the file with the remembered checksum, which it rolls back to the evaluations and optimizers of the      *)
(* checkpoint and gives a new checksum. An evaluation is <<number, optimizer, session>>: the session tells the          *)
(* evaluations of different continuations apart. Bug names a design mistake; each must break an invariant.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NO, MaxF, MaxCk, MaxSess, Bug

VARIABLES on,     \* a session is running
          closed, \* the last session was closed properly
          sess,   \* number of the session
          o,      \* optimizers started
          hist,   \* the evaluations of the run so far, in order (what is true)
          ended,  \* optimizers which have ended (what is true)
          chunk,  \* evaluations not yet written
          file,   \* checksum, rows of every optimizer, groups, recorded ends
          cks     \* the checkpoints made
vars == <<on, closed, sess, o, hist, ended, chunk, file, cks>>

Opts == 1..NO
Empty == [a \in Opts |-> <<>>]
Of(h, a) == SelectSeq(h, LAMBDA e : e[2] = a)
Upto(r, f) == SelectSeq(r, LAMBDA e : IF Bug = "off1" THEN e[1] < f ELSE e[1] <= f)
Written == [a \in Opts |-> file.rows[a] \o chunk[a]]

Init == /\ on = TRUE /\ closed = FALSE /\ sess = 1 /\ o = 0 /\ hist = <<>> /\ ended = {} /\ chunk = Empty
        /\ file = [sum |-> 1, rows |-> Empty, groups |-> {}, ends |-> {}] /\ cks = <<>>

Start == /\ on /\ o < NO /\ o' = o + 1
         /\ file' = [file EXCEPT !.groups = @ \cup {o + 1}]
         /\ UNCHANGED <<on, closed, sess, hist, ended, chunk, cks>>
Put(a) == /\ on /\ a \in 1..o /\ a \notin ended /\ Len(hist) < MaxF
          /\ LET e == <<Len(hist) + 1, a, sess>> IN hist' = Append(hist, e) /\ chunk' = [chunk EXCEPT ![a] = Append(@, e)]
          /\ UNCHANGED <<on, closed, sess, o, ended, file, cks>>
End(a) == /\ on /\ a \in 1..o /\ a \notin ended /\ ended' = ended \cup {a}
          /\ file' = [file EXCEPT !.ends = @ \cup {a}]
          /\ UNCHANGED <<on, closed, sess, o, hist, chunk, cks>>
(* nothing more is expected of an optimizer, or its chunk has become too large *)
Flush(a) == /\ on /\ chunk[a] # <<>>
            /\ file' = [file EXCEPT !.rows[a] = @ \o chunk[a]]
            /\ chunk' = IF Bug = "keepchunk" THEN chunk ELSE [chunk EXCEPT ![a] = <<>>]
            /\ UNCHANGED <<on, closed, sess, o, hist, ended, cks>>
Checkpoint == /\ on /\ Len(cks) < MaxCk
              /\ LET full == Bug # "noflush" IN
                 /\ file' = IF full THEN [file EXCEPT !.rows = Written] ELSE file
                 /\ chunk' = IF full THEN Empty ELSE chunk
                 /\ cks' = Append(cks, [sum |-> file.sum, f |-> Len(hist), o |-> o, hist |-> hist, ended |-> ended,
                                        chunk |-> IF full THEN Empty ELSE chunk])
              /\ UNCHANGED <<on, closed, sess, o, hist, ended>>
Finish == /\ on /\ on' = FALSE /\ closed' = TRUE
          /\ file' = IF Bug = "noclose" THEN file ELSE [file EXCEPT !.rows = Written]
          /\ chunk' = Empty /\ UNCHANGED <<sess, o, hist, ended, cks>>
Killed == /\ on /\ on' = FALSE /\ closed' = FALSE /\ chunk' = Empty /\ UNCHANGED <<sess, o, hist, ended, file, cks>>
Resume(k) == /\ ~on /\ k \in DOMAIN cks /\ sess < MaxSess
             /\ LET c == cks[k] IN
                /\ file.sum = c.sum \/ Bug = "nocheck"
                /\ on' = TRUE /\ closed' = FALSE /\ sess' = sess + 1
                /\ o' = c.o /\ hist' = c.hist /\ ended' = c.ended /\ chunk' = c.chunk /\ cks' = cks
                /\ file' = [sum |-> IF Bug = "samesum" THEN file.sum ELSE sess + 1,
                            rows |-> [a \in Opts |-> IF Bug = "norows" THEN file.rows[a] ELSE Upto(file.rows[a], c.f)],
                            groups |-> IF Bug = "nogroups" THEN file.groups ELSE file.groups \cap 1..c.o,
                            ends |-> IF Bug = "noends" THEN file.ends ELSE file.ends \cap c.ended]
Next == \/ Start \/ Checkpoint \/ Finish \/ Killed
        \/ \E a \in Opts : Put(a) \/ End(a) \/ Flush(a)
        \/ \E k \in 1..MaxCk : Resume(k)
Spec == Init /\ [][Next]_vars

(* while a session runs, the file and what is still to be written tell what happened, nothing more and nothing less *)
Story == on => /\ \A a \in Opts : Written[a] = Of(hist, a)
               /\ file.groups = 1..o /\ file.ends = ended
(* the file of a session which was closed is complete *)
Complete == closed => /\ \A a \in Opts : file.rows[a] = Of(hist, a)
                      /\ file.groups = 1..o /\ file.ends = ended
(* the file of a session which was killed lacks at most what had not been written, and begins as it should *)
Prefix == \A a \in Opts : file.rows[a] = SubSeq(Of(hist, a), 1, Len(file.rows[a]))
(* the last checkpoint can always be resumed: nothing refuses it and nothing is missing *)
Last == cks # <<>> /\ cks[Len(cks)].sum = file.sum =>
          \A a \in Opts : LET c == cks[Len(cks)] IN SelectSeq(file.rows[a], LAMBDA e : e[1] <= c.f) = Of(c.hist, a)
====
