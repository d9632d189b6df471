------------------------------ MODULE TraceWebm ------------------------------
EXTENDS Webm, TraceDet
\* when a write to the file fails is not determined by the calls; from then on every call says so
BStep(x, e) ==
    LET failed == e.o.failed
        to(n) == [n EXCEPT !.bad = failed]
        rel == [later |-> e.o.later = 0 /\ (x.bad => failed)]
    IN  CASE e.ev = "write" -> [st |-> to(BWrite(x, e.xs, IF "times" \in DOMAIN e THEN e.times ELSE 1)), obs |-> [err |-> x.bad, rate |-> x.cfg.rate], rel |-> rel]
          [] e.ev = "fail"  -> [st |-> to(x), obs |-> [err |-> FALSE], rel |-> rel]
          [] e.ev = "close" -> [st |-> x, rel |-> rel,
                                obs |-> [err |-> failed \/ e.o.closefail, closed |-> 1]
                                        @@ (IF failed THEN [z |-> 0] ELSE [track |-> Track(x), blocks |-> x.blocks])]
BInitOf(e) == BInit([codec |-> e.codec, ms |-> e.ms, us |-> e.us, rate |-> e.rate, channels |-> e.channels])
=============================================================================
