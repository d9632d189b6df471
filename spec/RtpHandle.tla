----------------------------- MODULE RtpHandle -----------------------------
(* HandleLoop: feeds a handler from a reader until either fails; the handler   *)
(* is closed exactly once, whatever the end is.  One event is one whole run.   *)
EXTENDS Integers, Sequences

\* n packets, then the reader fails; the handler fails at packet bad (0: never)
LoopHandled(n, bad) == IF bad > 0 /\ bad <= n THEN bad ELSE n
LoopErr(n, bad) == IF bad > 0 /\ bad <= n THEN "handler" ELSE "reader"
=============================================================================
