----------------------------- MODULE TraceChain -----------------------------
EXTENDS Chain, TraceDet
Fresh(x) == [x EXCEPT !.s = [i \in 1..Len(x.t) |-> IF x.t[i].k = "sink" THEN [x.s[i] EXCEPT !.got = <<>>] ELSE x.s[i]]]
\* what is seen of a node: sinks: the frames since the last call; others: everything
Seen(x, i) == LET k == x.t[i].k c == x.s[i] IN
              IF k = "sink" THEN <<c.got, c.closed>>
              ELSE IF k = "frames" THEN <<c.got, 0>>
              ELSE IF k = "buf" THEN <<<<Join(c.got)>>, 0>>
              ELSE IF k = "file" THEN <<IF c.closed > 0 THEN <<Join(c.got)>> ELSE <<>>, c.closed>>
              ELSE <<<<>>, 0>>
CStep(x, e) ==
    LET n == HApply(Fresh(x), e) IN
    [st |-> n, obs |-> [err |-> n.err, seen |-> [i \in 1..Len(n.t) |-> Seen(n, i)], in |-> TRUE,
                        rate |-> 8000, had |-> IF e.ev = "swap" THEN x.s[e.i].att ELSE FALSE]]
CInitOf(e) == HInit(e.tree)
=============================================================================
