---------------------------- MODULE TracePlayAudio ----------------------------
EXTENDS PlayAudio, TraceDet
AStep(x, e) == LET n == AApply(x, e) IN [st |-> n, obs |-> [out |-> n.out, ret |-> n.ret, late |-> FALSE, list |-> TRUE]]
AInitOf(e) == AIdle
=============================================================================
