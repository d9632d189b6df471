----------------------------- MODULE MCResample -----------------------------
(* Bounded model of a resampling writer: what has come out so far may be any    *)
(* number that the specification allows; in the end it is what is due.         *)
EXTENDS Resample, ModelDet
CONSTANTS Pairs, Sizes, MaxIn
AllPairs == {<<8000, 48000>>, <<48000, 16000>>, <<44100, 48000>>, <<48000, 44100>>, <<16000, 8000>>, <<24000, 16000>>, <<8000, 8000>>}
MStarts == {[new |-> TRUE]}
MOps(x) == IF "new" \in DOMAIN x THEN {[ev |-> "rates", src |-> p[1], dst |-> p[2]] : p \in Pairs}
           ELSE IF ~x.open THEN {}
           ELSE (IF x.inn < MaxIn THEN {[ev |-> "write", n |-> n] : n \in Sizes} ELSE {}) \cup {[ev |-> "close", fail |-> b] : b \in BOOLEAN}
MApply(x, e) == IF e.ev = "rates" THEN ZInit(e.src, e.dst) ELSE ZApply(x, e)
MView(x) == x
Gcd100(a) == a \div 100
MGood(x) == "new" \in DOMAIN x \/
            (\* as long as what went in, less than one sample short
             /\ Due(x) * x.src <= x.inn * x.dst
             /\ (Due(x) + 1) * x.src > x.inn * x.dst
             \* more in, never less out
             /\ \A n \in Sizes : Due(ZWrite(x, n)) >= Due(x)
             /\ Equal(x) => Due(x) = x.inn
             \* frames of equal writes have a whole number of samples
             /\ Whole(x) => FrameOf(x) * x.src = x.size * x.dst)
=============================================================================
