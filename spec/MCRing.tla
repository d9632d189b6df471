------------------------------- MODULE MCRing -------------------------------
EXTENDS Ring, ModelDet
CONSTANTS Cap
V == 7
ROps(x) == {[ev |-> "push", v |-> V], [ev |-> "trypush", v |-> V], [ev |-> "pop"], [ev |-> "trypop"],
            [ev |-> "peek"], [ev |-> "trypeek"]}
           \cup {[ev |-> "read", n |-> n] : n \in 0..(Cap + 1)}
           \cup {[ev |-> "write", vs |-> [i \in 1..n |-> V]] : n \in 0..(2 * Cap + 1)}
RMApply(x, o) == RApply(x, o).st
RStarts == {RingInit(Cap)}
RView(x) == <<Len(x.q), x.rd>>
RGood(x) == RInvBound(x)
=============================================================================
