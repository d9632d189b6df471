-------------------------------- MODULE MCPcm --------------------------------
EXTENDS Pcm, ModelDet
CONSTANTS Values, MaxLen
Few == {-32768, -32767, -1, 0, 1, 2, 32766, 32767}
Many == Few \cup {-20000, -3, -2, 3, 9999}
MStarts == {[src |-> <<>>]}
MOps(x) == (IF Len(x.src) < MaxLen THEN {[ev |-> "add", v |-> v] : v \in Values} ELSE {})
MApply(x, e) == [src |-> Append(x.src, e.v)]
MView(x) == x
Avg(a, b) == (a + b) \div 2
Int16(v) == v \in -32768..32767
MGood(x) == LET st == Stereo(x.src)
                k == Len(x.src) \div 2
                out == [i \in 1..k |-> Avg(x.src[2 * i - 1], x.src[2 * i])]
            IN /\ Len(st) = 2 * Len(x.src)
               \* there and back again is the same
               /\ MonoOK(st, x.src)
               /\ \A i \in 1..Len(x.src) : Avg(st[2 * i - 1], st[2 * i]) = x.src[i]
               \* the average is allowed and is a sample; nothing two steps away is
               /\ MonoOK(x.src, out) /\ \A i \in 1..k : Int16(out[i])
               /\ \A i \in 1..k : ~MonoOK(x.src, [out EXCEPT ![i] = @ + 2]) /\ ~MonoOK(x.src, [out EXCEPT ![i] = @ - 2])
               /\ k > 0 => ~MonoOK(x.src, SubSeq(out, 1, k - 1))
=============================================================================
