---------------------------- MODULE TraceRegistry ----------------------------
EXTENDS Registry, TraceDet
SetQ(q) == {q[i] : i \in 1..Len(q)}
RStep(x, e) ==
    IF e.ev = "base" THEN [st |-> RInit(e.codecs, SetQ(e.off), e.types), obs |-> <<>> @@ [z |-> 0]]
    ELSE LET n == RApply(x, e) IN
         [st |-> n, obs |-> [all |-> Ids(n.codecs), enabled |-> Enabled(n), cbs |-> n.cbs,
                             names |-> [i \in 1..Len(e.ask) |-> Named(n, e.ask[i])],
                             on |-> [i \in 1..Len(e.ask) |-> e.ask[i] \notin n.off],
                             each |-> [i \in 1..(Len(n.codecs) + 1) |-> i <= Len(n.codecs) /\ n.codecs[i].low \notin n.off],
                             types |-> n.types]]
RInitOf(e) == RInit(<<>>, {}, <<>>)
=============================================================================
