-------------------------------- MODULE Pipe --------------------------------
(* The pipe (pipe.go): writes and reads of any number of threads meet, and     *)
(* either end can be closed.  A thread has at most one call in progress; pc    *)
(* says where in it the thread is.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Idle == [pc |-> "idle", k |-> "", data |-> <<>>, err |-> "", met |-> FALSE]
PipeInit(n) == [th |-> [t \in 0..(n - 1) |-> Idle], lock |-> -1, done |-> FALSE, rerr |-> "", werr |-> ""]

\* errors are names; "" is none
ReadError(x) == IF x.rerr = "" /\ x.werr # "" THEN x.werr ELSE "closed"
WriteError(x) == IF x.werr = "" /\ x.rerr # "" THEN x.rerr ELSE "closed"

\* ------------------------------------------------------------ calls
Call(x, t, k, data, n, err) ==
    IF x.th[t].pc # "idle" THEN {}
    ELSE {[x EXCEPT !.th[t] = [pc |-> "enter", k |-> k, data |-> data, err |-> err, met |-> FALSE] @@ [n |-> n]]}

Return(x, t) == {[x EXCEPT !.th[t] = Idle]}
Back(x, t, k, err) == x.th[t].pc = "back" /\ x.th[t].k = k /\ x.th[t].err = err

\* ------------------------------------------------------------ inside
Fail(x, t, err) == [x EXCEPT !.th[t].pc = "back", !.th[t].err = err, !.lock = IF @ = t THEN -1 ELSE @]

EnterW(x, t) == IF x.th[t].k = "w" /\ x.th[t].pc = "enter"
                THEN {IF x.done THEN Fail(x, t, WriteError(x)) ELSE [x EXCEPT !.th[t].pc = "wait"]} ELSE {}
TakeLock(x, t) == IF x.th[t].k = "w" /\ x.th[t].pc = "wait" /\ x.lock = -1
                  THEN {[x EXCEPT !.lock = t, !.th[t].pc = "send"]} ELSE {}
FailW(x, t) == IF x.th[t].k = "w" /\ x.th[t].pc = "send" /\ x.done THEN {Fail(x, t, WriteError(x))} ELSE {}
\* everything was read; a write of nothing may, but need not, wait for a reader
EndW(x, t) == IF x.th[t].k = "w" /\ x.th[t].pc = "send" /\ x.th[t].data = <<>> THEN {Fail(x, t, "")} ELSE {}
EnterR(x, t) == IF x.th[t].k = "r" /\ x.th[t].pc = "enter"
                THEN {IF x.done THEN Fail(x, t, ReadError(x)) ELSE [x EXCEPT !.th[t].pc = "recv"]} ELSE {}
FailR(x, t) == IF x.th[t].k = "r" /\ x.th[t].pc = "recv" /\ x.done THEN {Fail(x, t, ReadError(x))} ELSE {}
Min(a, b) == IF a < b THEN a ELSE b
\* the writer that has its turn and a waiting reader
Meet(x, w, r) ==
    IF x.th[w].k = "w" /\ x.th[w].pc = "send" /\ x.th[r].k = "r" /\ x.th[r].pc = "recv"
       /\ (x.th[w].data # <<>> \/ ~x.th[w].met)
    THEN LET d == x.th[w].data n == Min(Len(d), x.th[r].n) IN
         {[x EXCEPT !.th[r].pc = "back", !.th[r].data = SubSeq(d, 1, n), !.th[r].err = "",
                    !.th[w].data = SubSeq(d, n + 1, Len(d)), !.th[w].met = TRUE]}
    ELSE {}
\* closing: first the error, then everybody is woken up
Store(x, t) ==
    IF x.th[t].k \in {"cw", "cr"} /\ x.th[t].pc = "enter"
    THEN {LET y == [x EXCEPT !.th[t].pc = "shut"] e == x.th[t].err IN
          IF x.th[t].k = "cr" THEN [y EXCEPT !.rerr = IF @ # "" THEN @ ELSE IF e = "" THEN "closed" ELSE e]
          ELSE [y EXCEPT !.werr = IF @ # "" THEN @ ELSE IF e = "" THEN "EOF" ELSE e]}
    ELSE {}
Shut(x, t) == IF x.th[t].pc = "shut" THEN {[x EXCEPT !.done = TRUE, !.th[t].pc = "back", !.th[t].err = ""]} ELSE {}

Inner(x) ==
    UNION {EnterW(x, t) \cup TakeLock(x, t) \cup FailW(x, t) \cup EndW(x, t) \cup EnterR(x, t) \cup FailR(x, t)
           \cup Store(x, t) \cup Shut(x, t) : t \in DOMAIN x.th}
    \cup UNION {Meet(x, w, r) : w, r \in DOMAIN x.th}
=============================================================================
