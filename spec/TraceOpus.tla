------------------------------ MODULE TraceOpus ------------------------------
EXTENDS Opus, TraceDet
Lens(q) == [i \in 1..Len(q) |-> Len(q[i])]
OStep(x, e) ==
    CASE e.ev = "open" -> [st |-> x, obs |-> [err |-> x.target \notin {1, 2}]]
      \* the rates and channels of Opus
      [] e.ev = "encnew" -> [st |-> x, obs |-> [encerr |-> e.rate \notin {8000, 12000, 16000, 24000, 48000} \/ e.ch \notin {1, 2}, err |-> FALSE, closed |-> x.closed, out |-> <<>>]]
      [] e.ev = "encbad" -> [st |-> x, obs |-> [encerr |-> TRUE, packets |-> 0, encclosed |-> 1, err |-> FALSE, closed |-> x.closed, out |-> <<>>]]
      [] OTHER ->
    LET n == OApply(x, e)
        ob == [err |-> n.err, closed |-> n.closed] @@ (IF e.ev = "pkt" THEN [in |-> TRUE, packets |-> 1] ELSE [z |-> 0])
    IN  CASE n.out = "" -> [st |-> n, obs |-> ob @@ [out |-> <<>>]]
          [] n.out # "" -> [st |-> n, obs |-> ob,
                            rel |-> [out |-> /\ Lens(e.o.out) = <<e.n * n.target>>
                                             /\ Len(e.ref) = e.n * e.ch
                                             /\ IF n.out = "same" THEN e.o.out[1] = e.ref
                                                ELSE IF n.out = "double" THEN e.o.out[1] = Stereo(e.ref)
                                                ELSE MonoOK(e.ref, e.o.out[1])]]
OInitOf(e) == OInit(e.rate, e.target)
Inv == l > 1 => OInv(s)
=============================================================================
