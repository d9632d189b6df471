------------------------------ MODULE TraceDtmf ------------------------------
EXTENDS Dtmf, TraceDet
\* packets of the audio stream carry no event
Pkt(p) == <<p[1], p[2], p[3], p[4], p[5]>>
DObs(n, e) == [ pkts |-> [i \in 1..Len(n.pkts) |-> Pkt(n.pkts[i])], ret |-> n.ret, late |-> FALSE ]
SetQ(q) == {q[i] : i \in 1..Len(q)}
\* the frames: the two frequencies of the digit, or silence
FrameOK(f, hz, rate) == /\ f.n = rate \div 50
                        /\ SetQ(f.hz) = SetQ(hz) /\ f.clean /\ f.smooth
                        /\ \A i, j \in 1..Len(f.pct) : f.pct[i] - f.pct[j] \in -2..2
Rate(e) == IF "rate" \in DOMAIN e THEN e.rate ELSE 8000
DStep(x, e) ==
    CASE e.ev \in {"enc"} ->
           [st |-> x, obs |-> IF e.n < 4 THEN [err |-> TRUE, kept |-> TRUE] ELSE [err |-> FALSE, n |-> 4, b |-> Encode(e), kept |-> TRUE]]
      [] e.ev = "dec" ->
           [st |-> x, obs |-> IF Len(e.b) < 4 THEN [err |-> TRUE, rtp |-> <<>>, rtpm |-> <<>>]
                              ELSE LET r == Decode(e.b) v == <<r.code, r.digit, r.vol, r.end, r.dur>>
                                   IN [err |-> FALSE, v |-> v, rtp |-> <<>>, rtpm |-> v]]
      [] e.ev = "decall" ->
           \* all second bytes
           [st |-> x, obs |-> [all |-> [i \in 1..256 |-> LET r == Decode(<<e.c, i - 1, e.hi, e.lo>>) IN <<r.code, r.digit, r.vol, r.end, r.dur>>],
                               back |-> [i \in 1..256 |-> <<e.c, (i - 1) - (IF ((i - 1) \div 64) % 2 = 1 THEN 64 ELSE 0), e.hi, e.lo>>]]]
      [] e.ev = "durall" ->
           \* all durations with one high byte
           [st |-> x, obs |-> [all |-> [i \in 1..256 |-> Encode([e EXCEPT !.dur = e.dur + i - 1])],
                               back |-> [i \in 1..256 |-> e.dur + i - 1]]]
      [] e.ev = "tone" ->
           [st |-> x, obs |-> [code |-> IF CodeOf(e.c) < 0 THEN 0 ELSE CodeOf(e.c), hz |-> HzOf(e.c)]]
      [] e.ev = "open" -> [st |-> [d |-> Create(e.mode, e.events), rate |-> Rate(e)], obs |-> [none |-> 0]]
      [] OTHER -> LET n == DApply(x.d, e) f == e.o.frame IN
                  [st |-> [x EXCEPT !.d = n], obs |-> DObs(n, e),
                   rel |-> [frame |-> Len(f) = Len(n.frame) /\ \A i \in 1..Len(f) : FrameOK(f[i], n.frame[i], x.rate)]]
DInitOf(e) == [none |-> 0]
=============================================================================
