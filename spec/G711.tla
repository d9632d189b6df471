-------------------------------- MODULE G711 --------------------------------
(* ITU-T G.711: what the codes of the two laws stand for, and which code stands *)
(* for a sample.                                                                *)
EXTENDS Integers, Sequences, Bitwise

UValue(c) == LET v == 255 - c
                 t == (((v % 16) * 8) + 132) * (2 ^ ((v \div 16) % 8))
             IN  IF v >= 128 THEN 132 - t ELSE t - 132
AValue(c) == LET v == c ^^ 85
                 m == v % 16
                 g == (v \div 16) % 8
                 t == IF g = 0 THEN ((2 * m) + 1) * 8 ELSE ((2 * m) + 33) * (2 ^ (g + 2))
             IN  IF v >= 128 THEN t ELSE -t
UTab == [c \in 0..255 |-> UValue(c)]
ATab == [c \in 0..255 |-> AValue(c)]
\* the two neighbours of the value of a code (or the value itself at the ends)
Below(tab) == [c \in 0..255 |-> LET S == {tab[d] : d \in {d \in 0..255 : tab[d] < tab[c]}} IN
                                IF S = {} THEN tab[c] - 100000 ELSE CHOOSE v \in S : \A w \in S : w <= v]
Above(tab) == [c \in 0..255 |-> LET S == {tab[d] : d \in {d \in 0..255 : tab[d] > tab[c]}} IN
                                IF S = {} THEN tab[c] + 100000 ELSE CHOOSE v \in S : \A w \in S : w >= v]
UBelow == Below(UTab)
UAbove == Above(UTab)
ABelow == Below(ATab)
AAbove == Above(ATab)
Tab(law) == IF law = "a" THEN ATab ELSE UTab
Lo(law) == IF law = "a" THEN ABelow ELSE UBelow
Hi(law) == IF law = "a" THEN AAbove ELSE UAbove
\* samples are rounded down to multiples of 4 first
Slack == 4
\* c is as near to the sample v as a code can be
Near(law, c, v) == /\ c \in 0..255
                   /\ 2 * v >= Lo(law)[c] + Tab(law)[c] - (2 * Slack)
                   /\ 2 * v <= Hi(law)[c] + Tab(law)[c] + (2 * Slack)
=============================================================================
