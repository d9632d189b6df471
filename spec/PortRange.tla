----------------------------- MODULE PortRange -----------------------------
(* Listening on some UDP port of a range: ports that are in use are skipped,   *)
(* each port is tried at most once, any other error ends the search at once.   *)
EXTENDS Integers, Sequences, FiniteSets

MaxPort == 65535
\* the ports which may be tried; {0} asks the system for any port
Range(lo, hi) ==
    IF lo <= 0 /\ hi <= 0 THEN {0}
    ELSE IF lo = hi THEN {lo}
    ELSE (IF lo <= 0 THEN 1 ELSE lo)..(IF hi <= 0 \/ hi > MaxPort THEN MaxPort ELSE hi)

\* tried: sequence of <<port, result>> with result in {"ok", "used", "denied"}
Results(tried) == [i \in 1..Len(tried) |-> tried[i][2]]
PortsOf(tried) == {tried[i][1] : i \in 1..Len(tried)}

Orderly(lo, hi, tried) ==
    /\ PortsOf(tried) \subseteq Range(lo, hi)
    /\ Cardinality(PortsOf(tried)) = Len(tried)
    /\ \A i \in 1..(Len(tried) - 1) : tried[i][2] = "used"

\* a single port (or any) is asked for once: its error is the result
Single(lo, hi) == (lo <= 0 /\ hi <= 0) \/ lo = hi
Outcome(lo, hi, tried) ==
    IF tried = <<>> THEN "failed"
    ELSE LET r == tried[Len(tried)] IN
         IF r[2] = "ok" THEN "ok"
         ELSE IF r[2] = "denied" THEN "denied"
         ELSE IF Single(lo, hi) THEN "used" ELSE "failed"
\* giving up needs a reason: every port of the range is in use
Complete(lo, hi, tried) ==
    (tried # <<>> /\ tried[Len(tried)][2] # "used") \/ Len(tried) = Cardinality(Range(lo, hi))
=============================================================================
