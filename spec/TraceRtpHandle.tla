--------------------------- MODULE TraceRtpHandle ---------------------------
EXTENDS RtpHandle, TraceDet
LStep(x, e) ==
    [st |-> x, obs |->
       CASE e.ev = "loop" -> [seen |-> [i \in 1..LoopHandled(e.n, e.bad) |-> i], err |-> LoopErr(e.n, e.bad), closes |-> 1, late |-> FALSE]
         [] e.ev = "nop"  -> [seen |-> [i \in 1..LoopHandled(e.n, e.bad) |-> i], err |-> LoopErr(e.n, e.bad), closes |-> 0, late |-> FALSE]
         [] e.ev = "nilfunc" -> [seen |-> <<>>, err |-> "reader", closes |-> 0, late |-> FALSE]
         [] e.ev = "in"   -> [seen |-> e.p, err |-> IF e.fail THEN "writer" ELSE "", closes |-> 0, late |-> FALSE]]
LInit(e) == 0
=============================================================================
