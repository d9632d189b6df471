---------------------------- MODULE TraceResample ----------------------------
EXTENDS Resample, TraceDet
ZStep(x, e) ==
    IF e.ev = "once" THEN
        [st |-> x, obs |-> [kept |-> TRUE, in |-> TRUE, quiet |-> TRUE, fit |-> TRUE, added |-> (e.n * (x.dst \div 100)) \div (x.src \div 100)]
                           @@ (IF Equal(x) THEN [copy |-> TRUE] ELSE [z |-> 0])]
    \* rates that are none: refused by a panic, with the process as it was
    ELSE IF e.ev = "badrate" THEN [st |-> x, obs |-> [refused |-> (e.src <= 0) # (e.dst <= 0)]]
    ELSE
    LET n == ZApply(x, e)
        t == SumOf(e.o.lens)
        full == [i \in 1..Len(e.o.lens) |-> e.o.lens[i]]
    IN [st |-> [n EXCEPT !.out = x.out + t],
        obs |-> [rate |-> x.src, closed |-> IF n.open THEN 0 ELSE 1]
                @@ (IF e.ev = "write" THEN [in |-> TRUE, err |-> IF ~x.open THEN TRUE ELSE e.o.bad]
                    ELSE IF e.ev = "close" THEN [quiet |-> TRUE, fit |-> TRUE, err |-> IF x.open THEN e.fail ELSE TRUE] ELSE [z |-> 0])
                @@ (IF e.ev = "close" /\ x.open THEN [same |-> TRUE] ELSE [z |-> 0])
                @@ (IF Equal(x) /\ e.ev = "write" /\ x.open THEN [lens |-> <<e.n>>] ELSE [z |-> 0]),
        rel |-> [total |-> /\ e.o.total = x.out + t
                           \* nothing is invented; all of it is there in the end
                           /\ IF n.open THEN e.o.total <= Due(n) + 1 ELSE e.o.total = Due(n),
                 \* every frame but the last one is as long as what was written
                 frames |-> (Whole(n) /\ ~Equal(x)) => \A i \in 1..Len(e.o.lens) : e.o.lens[i] = FrameOf(n) \/ (e.ev = "close" /\ i = Len(e.o.lens)
                                                                                     /\ e.o.lens[i] <= FrameOf(n))]]
ZInitOf(e) == ZInit(e.src, e.dst)
=============================================================================
