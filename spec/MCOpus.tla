------------------------------- MODULE MCOpus -------------------------------
EXTENDS Opus, ModelDet
MStarts == {OInit(8000, t) : t \in {1, 2}}
MOps(x) == IF x.closed > 0 THEN {}
           ELSE {[ev |-> "pkt", ch |-> c] : c \in {1, 2}} \cup {[ev |-> "bad", ch |-> c] : c \in {1, 2}} \cup {[ev |-> "empty"], [ev |-> "close"]}
                \cup {[ev |-> "fail", on |-> b] : b \in {~x.fail}}
MApply(x, e) == OApply(x, e)
MView(x) == x
MGood(x) == OInv(x)
=============================================================================
