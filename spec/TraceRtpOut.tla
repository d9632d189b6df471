----------------------------- MODULE TraceRtpOut -----------------------------
EXTENDS RtpOut, TraceDet
Pick(q, f(_)) == [i \in 1..Len(q) |-> f(q[i])]
Full(n) == [ ret |-> n.err, val |-> n.val,
             seqs |-> Pick(n.pkts, LAMBDA p : p[1]), ts |-> Pick(n.pkts, LAMBDA p : p[2]),
             body |-> Pick(n.pkts, LAMBDA p : <<p[3], p[4], p[5]>>), same |-> TRUE,
             cur |-> [i \in 1..Len(n.streams) |-> n.streams[i].ts] ]
OStep(x, e) ==
    LET n == OApply(x, e)
        \* Close of a media stream and such have no effect
        obs == IF e.ev = "burst" THEN [seqs |-> n.pkts, ret |-> FALSE, same |-> TRUE] ELSE Full(n)
    IN  [st |-> n, obs |-> IF e.ev = "delayn" /\ e.n < 0 THEN obs @@ [panic |-> TRUE] ELSE obs]
OInitOf(e) == OInitAt(-e.hi)
Inv == l > 1 => OInvSeq(s) /\ OInvMono(s) /\ OInvHigh(s)
=============================================================================
