------------------------------- MODULE MCWebm -------------------------------
EXTENDS Webm, ModelDet
CONSTANTS MaxBlocks, Durations
AllDurations == {<<20, 0>>, <<2, 500>>, <<0, 125>>, <<22, 675>>, <<16, 667>>, <<999, 999>>, <<60000, 0>>}
MStarts == {[new |-> TRUE]}
MOps(x) == IF "new" \in DOMAIN x THEN {[ev |-> "cfg", codec |-> c, ms |-> d[1], us |-> d[2], rate |-> 48000, channels |-> 1] : c \in {"pcm", "opus"}, d \in Durations}
           ELSE IF x.closed THEN {}
           ELSE IF x.k < MaxBlocks THEN {[ev |-> "write", xs |-> <<x.k % 100>>, times |-> n] : n \in {1, 3}} \cup {[ev |-> "close"]} ELSE {[ev |-> "close"]}
MApply(x, e) == IF e.ev = "cfg" THEN BInit([codec |-> e.codec, ms |-> e.ms, us |-> e.us, rate |-> e.rate, channels |-> e.channels]) @@ [closed |-> FALSE]
                ELSE IF e.ev = "close" THEN [x EXCEPT !.closed = TRUE] ELSE BWrite(x, e.xs, e.times)
MView(x) == IF "new" \in DOMAIN x THEN x ELSE [cfg |-> x.cfg, k |-> x.k, closed |-> x.closed]
Dur(x) == (x.cfg.ms * 1000) + x.cfg.us
\* every block is less than a millisecond early and never late, however long the recording is
MGood(x) == "new" \in DOMAIN x \/
            (/\ Len(x.blocks) = x.k
             /\ \A i \in 1..Len(x.blocks) : LET t == x.blocks[i][1] exact == (i - 1) * Dur(x) IN
                   /\ t * 1000 <= exact /\ exact < (t + 1) * 1000
             /\ \A i \in 1..(Len(x.blocks) - 1) : x.blocks[i][1] <= x.blocks[i + 1][1])
=============================================================================
