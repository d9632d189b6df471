----------------------------- MODULE TraceRing -----------------------------
EXTENDS Ring, TraceDet
RStep(x, e) == LET r == RApply(x, e)
               IN [st |-> r.st, obs |-> [ret |-> r.ret, len |-> Len(r.st.q), size |-> r.st.cap]]
RInitOf(e) == RingInit(e.cap)
Inv == l > 1 => RInvBound(s)
=============================================================================
