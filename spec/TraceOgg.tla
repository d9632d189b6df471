------------------------------ MODULE TraceOgg ------------------------------
EXTENDS OggFile, TraceDet
FStep(x, e) ==
    LET refused == e.o.bad \/ e.o.rate # e.ask \/ e.o.channels # e.askch
    IN [st |-> x,
        obs |-> IF refused THEN [in |-> TRUE, refused |-> TRUE]
                ELSE [in |-> TRUE, refused |-> FALSE, total |-> e.o.want, lens |-> Cut(e.o.want, Per(e.ask, e.askch))],
        \* as near as a value without a fraction can be
        rel |-> IF refused THEN [none |-> TRUE] ELSE [far |-> e.o.far <= 1]]
FInitOf(e) == <<>>
=============================================================================
