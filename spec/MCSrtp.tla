------------------------------- MODULE MCSrtp -------------------------------
EXTENDS Srtp, ModelDet, FiniteSets
CONSTANTS MaxSent
\* n: how often something was delivered
MStarts == {[p |-> PInit(TRUE, FALSE), n |-> 0, nets |-> 0]}
MOps(x) == (IF Len(x.p.sent) < MaxSent
            THEN {[ev |-> "send", who |-> w, ssrc |-> c, id |-> Len(x.p.sent), seq |-> 65533 + Len(x.p.sent), len |-> 10] : w \in {0, 1}, c \in {1, 2}} ELSE {})
           \cup {[ev |-> "net", k |-> k, alter |-> a, cut |-> 0] : k \in 0..(Len(x.p.sent) - 1), a \in {-1, 77}}
           \cup {[ev |-> "net", k |-> k, alter |-> -1, cut |-> 1] : k \in 0..(Len(x.p.sent) - 1)}
           \cup (IF x.p.closed THEN {} ELSE {[ev |-> "close"]})
MApply(x, e) == LET p == PApply(x.p, e) IN [p |-> p, n |-> x.n + Len(p.out), nets |-> x.nets]
MView(x) == x
MGood(x) == PInv(x.p) /\ x.n = Cardinality(x.p.got)
=============================================================================
