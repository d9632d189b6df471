--------------------------- MODULE TracePortRange ---------------------------
EXTENDS PortRange, TraceDet
\* what the stand-in (or the socket) answers is a function of the port
Truth(e, p) == IF \E i \in 1..Len(e.denied) : e.denied[i] = p THEN "denied"
               ELSE IF (e.allused /\ \A i \in 1..Len(e.free) : e.free[i] # p) \/ \E i \in 1..Len(e.used) : e.used[i] = p
               THEN "used" ELSE "ok"
\* events of the stand-in carry the attempts; events of real sockets only the result
VStep(x, e) ==
    IF e.ev = "try"
    THEN [st |-> x,
          obs |-> [res |-> Outcome(e.lo, e.hi, e.o.tried),
                   port |-> IF Outcome(e.lo, e.hi, e.o.tried) = "ok" THEN e.o.tried[Len(e.o.tried)][1] ELSE -1],
          rel |-> [tried |-> /\ Orderly(e.lo, e.hi, e.o.tried)
                             /\ Complete(e.lo, e.hi, e.o.tried)
                             /\ \A i \in 1..Len(e.o.tried) : e.o.tried[i][2] = Truth(e, e.o.tried[i][1])]]
    ELSE LET R == Range(e.lo, e.hi)
             free == {p \in R : Truth(e, p) = "ok"}
         IN [st |-> x,
             obs |-> [none |-> 0],
             rel |-> [res |-> IF free # {} THEN e.o.res = "ok"
                              ELSE IF Single(e.lo, e.hi) THEN e.o.res = "used" ELSE e.o.res = "failed",
                      port |-> e.o.res = "ok" => (e.o.port \in free \/ (R = {0} /\ e.o.port > 0))]]
VInit(e) == 0
=============================================================================
