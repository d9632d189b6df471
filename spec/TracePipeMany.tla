---------------------------- MODULE TracePipeMany ----------------------------
(* Pipes closed at all moments of a transfer of blocks of three samples (the    *)
(* numbers 0, 1, ...) to reads of at most two.  Consequences of Pipe.tla:       *)
(* what is read is a prefix of what is written, a write succeeds if and only   *)
(* if all of its block was read, and both sides get the errors of the close.   *)
EXTENDS Integers, Sequences, TraceDet
MInit(e) == [none |-> 0]
ReadErr(e) == IF e.side = "cw" THEN (IF e.e = "" THEN "EOF" ELSE e.e) ELSE "closed"
WriteErr(e) == IF e.side = "cr" /\ e.e # "" THEN e.e ELSE "closed"
MStep(x, e) ==
    [st |-> x, obs |-> [none |-> 0],
     rel |-> [rounds |-> /\ Len(e.o.rounds) = e.n
                         /\ \A i \in 1..e.n : LET q == e.o.rounds[i]
                                               IN  q[3] /\ 3 * q[2] <= q[1] /\ q[1] < 3 * q[2] + 3 /\ q[4] = ReadErr(e) /\ q[5] = WriteErr(e)]]
=============================================================================
