----------------------------- MODULE MCOggFile -----------------------------
EXTENDS OggFile, ModelDet
\* 50 values a second and channel for every value of a frame
MStarts == {FInit(n * c, 50 * p, c) : n \in 0..7, p \in 1..3, c \in {1, 2}}
MOps(x) == IF x.done THEN {}
           ELSE {[ev |-> "read", k |-> k] : k \in {j \in 1..(x.n - x.read) : j % x.channels = 0}} \cup
                (IF x.read = x.n THEN {[ev |-> "end"]} ELSE {})
MApply(x, e) == IF e.ev = "end" THEN FEnd(x) ELSE FRead(x, e.k)
MView(x) == x
MGood(x) == FInv(x)
=============================================================================
