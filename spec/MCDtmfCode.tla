----------------------------- MODULE MCDtmfCode -----------------------------
(* Encoding and decoding of telephone events are inverses, for every event.    *)
EXTENDS Dtmf, ModelDet
CONSTANTS Vols, Durs
\* one state for each event
MStarts == {[code |-> IF d = 0 THEN c ELSE CodeOf(d), digit |-> d, vol |-> v, end |-> b, dur |-> n] :
               d \in {0}, c \in 0..255, v \in Vols, b \in BOOLEAN, n \in Durs}
           \cup {[code |-> 77, digit |-> Chars[i], vol |-> v, end |-> b, dur |-> n] : i \in 1..16, v \in Vols, b \in BOOLEAN, n \in Durs}
MOps(x) == {}
MApply(x, e) == x
MView(x) == x
Byte(b) == b \in 0..255
MGood(x) == LET b == Encode(x)
                r == Decode(b)
            IN /\ Len(b) = 4 /\ \A i \in 1..4 : Byte(b[i])
               /\ r.vol = x.vol /\ r.end = x.end /\ r.dur = x.dur
               /\ r.code = IF x.digit # 0 THEN CodeOf(x.digit) ELSE x.code
               /\ r.digit = IF r.code < 16 THEN Chars[r.code + 1] ELSE 0
               \* by digit and by code it is the same
               /\ r.digit # 0 => Encode([x EXCEPT !.digit = r.digit]) = Encode([x EXCEPT !.digit = 0, !.code = r.code])
               /\ r.digit # 0 => LET hz == HzOf(r.digit) IN hz[1] < hz[2]
               \* what was decoded can be encoded again
               /\ Encode([code |-> r.code, digit |-> 0, vol |-> r.vol, end |-> r.end, dur |-> r.dur]) = b
=============================================================================
