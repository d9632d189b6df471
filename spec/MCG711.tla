------------------------------- MODULE MCG711 -------------------------------
(* The two laws as the specification states them: decoding and coding are        *)
(* consistent for every code and every sample.                                 *)
EXTENDS G711, ModelDet
CONSTANTS Stride
\* blocks of samples
MStarts == {[law |-> w, from |-> f] : w \in {"a", "u"}, f \in {(k * Stride) - 32768 : k \in 0..((65536 \div Stride) - 1)}}
MOps(x) == {}
MApply(x, e) == x
MView(x) == x
Fits(w, v) == {c \in 0..255 : Near(w, c, v)}
MGood(x) == LET v == x.from
                w == x.law
                f == Fits(w, v)
            IN \* some code fits
               /\ f # {}
               \* symmetric
               /\ v # -32768 => {Tab(w)[c] : c \in Fits(w, -v)} = {-Tab(w)[c] : c \in f}
               \* the value of a code is coded as itself (or as the other zero)
               /\ \A c \in f : \E d \in Fits(w, Tab(w)[c]) : Tab(w)[d] = Tab(w)[c]
               \* within the last step: never further away than the sample's distance to the neighbour
               /\ \A c \in f : LET e == IF Tab(w)[c] >= v THEN Tab(w)[c] - v ELSE v - Tab(w)[c]
                                   up == Hi(w)[c] - Tab(w)[c]
                                   dn == Tab(w)[c] - Lo(w)[c]
                               IN (2 * e) <= (IF v > Tab(w)[c] THEN up ELSE dn) + 2 * Slack
=============================================================================
