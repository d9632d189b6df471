------------------------------ MODULE MCRtpOut ------------------------------
EXTENDS RtpOut, ModelDet
CONSTANTS NStreams, Delays, Resets
P == <<1>>
OOps(x) ==
    (IF Len(x.streams) < NStreams THEN {[ev |-> "stream", typ |-> Len(x.streams), dur |-> 10 * (Len(x.streams) + 1)]} ELSE {})
    \cup {[ev |-> v, k |-> k - 1, m |-> FALSE, p |-> P] : v \in {"write", "cur"}, k \in 1..Len(x.streams)}
    \cup {[ev |-> "delay", k |-> k - 1, d |-> d] : d \in Delays, k \in 1..Len(x.streams)}
    \cup {[ev |-> "delayn", k |-> k - 1, n |-> n] : n \in {1, 26}, k \in 1..Len(x.streams)}
    \cup {[ev |-> "setts", k |-> k - 1, ts |-> t] : t \in Resets, k \in 1..Len(x.streams)}
    \cup {[ev |-> "fail", on |-> ~x.fail]}
    \cup {[ev |-> "raw", typ |-> 9, ts |-> 5, m |-> TRUE, p |-> P]}
OStarts == {OInit}
OView(x) == [x EXCEPT !.pkts = <<>>, !.val = 0, !.err = FALSE, !.sent = 0]
OGood(x) == OInvSeq(x) /\ OInvMono(x) /\ OInvHigh(x)
=============================================================================
