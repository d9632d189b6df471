---------------------------- MODULE TraceWriters ----------------------------
EXTENDS Writers, TraceDet
\* fan-out: every target sees every write and close; recorders: what is stored so far
WStep(x, e) ==
    LET n == WApply(x, e) IN
    [st |-> n,
     obs |-> [multi |-> [i \in 1..n.n |-> IF e.ev = "write" THEN <<e.xs>> ELSE <<>>],
              closed |-> [i \in 1..n.n |-> n.closed],
              err |-> n.err,
              frames |-> n.frames, buffer |-> n.kept, slice |-> n.all, samples |-> n.frames, dumpsink |-> n.frames, quiet |-> TRUE]]
        @@ (IF n.closed > 0
            THEN [rel |-> [file |-> IF n.bad THEN e.o.fileerr ELSE ~e.o.fileerr /\ e.o.file = Bytes(n.all),
                           dump |-> e.o.dump = Bytes(n.all), fileclosed |-> e.o.fileclosed = 1]]
            ELSE [rel |-> [fileclosed |-> e.o.fileclosed = 0]])
WInitOf(e) == WInit(e.n)
=============================================================================
