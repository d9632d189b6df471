----------------------------- MODULE TraceSwitch -----------------------------
EXTENDS Switch, TraceDet, FiniteSets
\* a writer of another rate gets the same duration: some of it now, all of it when it is closed
Share(x, i) == (x.w[i].inn * x.w[i].rate) \div x.rate
SWStep(x, e) ==
    LET n == SWApply(x, e)
        same(i) == n.rate > 0 /\ n.w[i].rate = n.rate
        \* a resampling writer may keep what it was given: it fails when something came out
        failed == e.ev = "write" /\ e.o.failed
        ob == [ret |-> IF failed THEN Error ELSE n.ret, val |-> n.val, closed |-> [i \in 1..Len(n.w) |-> n.w[i].closed],
               direct |-> IF n.to # None /\ same(n.to + 1) THEN <<<<n.to, e.xs>>>> ELSE <<>>,
               failed |-> IF n.to # None /\ same(n.to + 1) THEN n.w[n.to + 1].bad
                         ELSE e.o.failed /\ (\E i \in 1..Len(n.w) : n.w[i].bad)]
    IN  [st |-> n, obs |-> IF n.panic THEN ob @@ [panic |-> TRUE] ELSE ob,
         rel |-> [ret |-> failed => n.to # None /\ n.w[n.to + 1].bad,
                  total |-> \A i \in 1..Len(n.w) :
                              IF n.rate <= 0 THEN e.o.total[i] = 0
                              ELSE IF same(i) THEN e.o.total[i] = n.w[i].inn
                              ELSE IF n.w[i].closed > 0 THEN e.o.total[i] = Share(n, i)
                              ELSE e.o.total[i] <= Share(n, i) + 1]]
SWInitOf(e) == SWInit(e.rates)
Inv == l > 1 => SWInv(s)
=============================================================================
