------------------------- MODULE TraceHandleJitter -------------------------
EXTENDS HandleJitter, TraceDet
HInit(e) == HStart(e.bad)
Inv == TRUE
=============================================================================
