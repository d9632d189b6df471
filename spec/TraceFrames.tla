----------------------------- MODULE TraceFrames -----------------------------
EXTENDS Frames, TraceDet
FStep(x, e) == LET n == FApply(x, e) IN [st |-> n, obs |-> [out |-> n.out, err |-> n.err, closed |-> n.closed]]
FInitOf(e) == FInit(e.size)
Inv == l > 1 => FInv(s)
=============================================================================
