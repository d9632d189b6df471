--------------------------- MODULE TraceRtpOutPar ---------------------------
(* Streams of one SeqWriter used by different goroutines: whatever the order  *)
(* is, packets are numbered in the order in which they leave, each stream     *)
(* keeps its own order, and its timestamps follow the rule of RtpOut.CurTS.    *)
EXTENDS RtpOut, TraceDet
PInit(e) == [seq |-> 0, max |-> 0, dur |-> e.dur, n |-> e.n, next |-> [k \in 1..e.streams |-> 0], ts |-> [k \in 1..e.streams |-> -1]]
\* a timestamp may be chosen (against the maximum at that time) before packets of other streams leave:
\* it is the next one of the stream, or one that catches up with the most recent one
PStep(x, e) ==
    LET k == e.k + 1
        own == IF x.ts[k] = -1 THEN 0 ELSE x.ts[k] + x.dur
        t == e.o.ts
    IN [st |-> [x EXCEPT !.seq = (@ + 1) % SeqSpace, !.next[k] = @ + 1, !.ts[k] = t,
                         !.max = IF t > @ THEN t ELSE @],
        obs |-> [seq |-> x.seq, typ |-> e.k, m |-> e.i % 2 = 1],
        rel |-> [order |-> e.i = x.next[k],
                 ts |-> \/ t = own
                        \/ t > own + ResetFrames * x.dur]]
=============================================================================
