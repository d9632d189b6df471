--------------------------- MODULE TraceRtpBuffer ---------------------------
(* rtp.Buffer keeps its own copy of every packet written to it.               *)
EXTENDS TraceDet
BInit(e) == <<>>
BStep(x, e) == LET n == Append(x, <<e.sn, e.ts, e.m, e.typ, 7, 1, e.x, e.p>>)
               IN [st |-> n, obs |-> [n |-> Len(e.p), all |-> n]]
=============================================================================
