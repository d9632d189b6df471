------------------------------ MODULE MCFrames ------------------------------
EXTENDS Frames, ModelDet
CONSTANTS Sizes, MaxWrite, Fails
\* elements are numbered in the order in which they are written
Nums(x, n) == [i \in 1..n |-> Len(x.inn) + i]
MStarts == {[new |-> TRUE]}
MOps(x) == IF "new" \in DOMAIN x THEN {[ev |-> "size", n |-> n] : n \in Sizes}
           ELSE IF x.closed > 0 THEN {}
           ELSE {[ev |-> "write", xs |-> Nums(x, n)] : n \in 0..MaxWrite}
                \cup {[ev |-> "close", fail |-> b] : b \in BOOLEAN}
                \cup (IF x.failAt = -1 THEN {[ev |-> "fail", n |-> n] : n \in Fails} ELSE {})
MApply(x, e) == IF e.ev = "size" THEN FInit(e.n) ELSE FApply(x, e)
MView(x) == IF "new" \in DOMAIN x THEN x ELSE [x EXCEPT !.inn = Len(@), !.sent = Len(@)]
MGood(x) == "new" \in DOMAIN x \/ FInv(x)
=============================================================================
