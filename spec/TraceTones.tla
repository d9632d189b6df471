------------------------------ MODULE TraceTones ------------------------------
EXTENDS Tones, TraceDet, FiniteSets
SetQ(q) == {q[i] : i \in 1..Len(q)}
\* the sound of a frame: its frequencies, each with an equal share of the volume, nothing else
SoundOK(f, hz, vol) ==
    /\ SetQ(f.hz) = SetQ(hz)
    /\ f.clean /\ Len(f.pct) = Len(f.hz)
    /\ vol < 0 \/ \A i \in 1..Len(f.pct) : f.pct[i] * Len(hz) \in 95..105
TObs(n) == [ret |-> n.ret, late |-> FALSE, nframes |-> Len(n.frame)]
TStep(x, e) ==
    CASE e.ev = "peak" -> [st |-> x, obs |-> <<>> @@ [z |-> 0], rel |-> [peak |-> e.o.peak <= x.vol]]
      [] e.ev = "n" ->
           LET tot == x.n + e.n hz == x.hz IN
           [st |-> [x EXCEPT !.n = tot], obs |-> [ret |-> TRUE],
            rel |-> [gen |-> /\ e.o.gen.n = tot
                             /\ IF Len(hz) = 0 THEN e.o.gen.hz = <<>> /\ e.o.gen.clean
                                ELSE tot >= x.rate \div 40 => SoundOK(e.o.gen, hz, x.vol),
                     peak |-> e.o.peak <= x.vol]]
      [] OTHER ->
           LET n == PApply(x.p, e)
               y == IF e.ev = "play" THEN [x EXCEPT !.p = n, !.rate = e.rate, !.vol = e.vol] ELSE [x EXCEPT !.p = n]
               f == e.o.frame
           IN  [st |-> y, obs |-> [ret |-> n.ret, late |-> FALSE],
                rel |-> [frame |-> /\ Len(f) = Len(n.frame)
                                   /\ \A i \in 1..Len(f) : /\ f[i].n = y.rate \div 50
                                                           /\ f[i].smooth
                                                           /\ SoundOK(f[i], n.frame[i], y.vol)]]
TInitOf(e) == [p |-> PIdle, rate |-> IF "rate" \in DOMAIN e THEN e.rate ELSE 0, vol |-> IF "vol" \in DOMAIN e THEN e.vol ELSE 0,
               hz |-> IF "hz" \in DOMAIN e THEN e.hz ELSE <<>>, n |-> 0]
=============================================================================
