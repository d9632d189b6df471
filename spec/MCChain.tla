------------------------------- MODULE MCChain -------------------------------
(* Bounded model of chains of writers of several shapes.  all: the samples of   *)
(* all writes; lossy: something failed, was off or detached.                   *)
EXTENDS Chain, ModelDet
CONSTANTS Trees, Sizes, MaxIn, MaxClose
N(k, n, c) == [k |-> k, n |-> n, c |-> c]
T1 == <<N("full", 2, <<2>>), N("multi", 0, <<3, 5>>), N("full", 3, <<4>>), N("sink", 0, <<>>), N("sink", 0, <<>>)>>
T2 == <<N("multi", 0, <<2, 4, 6>>), N("switch", 0, <<3>>), N("sink", 0, <<>>), N("nop", 0, <<5>>), N("buf", 0, <<>>), N("file", 0, <<>>)>>
T3 == <<N("switch", 0, <<2>>), N("full", 2, <<3>>), N("code", 0, <<4>>), N("switch", 0, <<5>>), N("sink", 0, <<>>)>>
T4 == <<N("nop", 0, <<2>>), N("full", 3, <<3>>), N("full", 2, <<4>>), N("multi", 0, <<5, 6>>), N("same", 0, <<7>>), N("frames", 0, <<>>), N("sink", 0, <<>>)>>
AllTrees == {T1, T2, T3, T4}
MStarts == {[new |-> TRUE]}
Kinds(x, k) == {i \in 1..Len(x.h.t) : x.h.t[i].k = k}
Nums(a, n) == [i \in 1..n |-> a + i]
MOps(x) ==
    IF "new" \in DOMAIN x THEN {[ev |-> "tree", t |-> t] : t \in Trees}
    ELSE IF x.closes >= MaxClose THEN {}
    ELSE {[ev |-> "write", xs |-> Nums(Len(x.all), n)] : n \in {n \in Sizes : Len(x.all) + n <= MaxIn}} \cup {[ev |-> "close"]}
         \cup {[ev |-> "fail", i |-> i, on |-> ~x.h.s[i].fail] : i \in Kinds(x, "sink")}
         \cup {[ev |-> "on", i |-> i, on |-> ~x.h.s[i].on] : i \in Kinds(x, "switch")}
         \cup {[ev |-> "swap", i |-> i, on |-> ~x.h.s[i].att] : i \in Kinds(x, "switch")}
MApply(x, e) ==
    IF e.ev = "tree" THEN [h |-> HInit(e.t), all |-> <<>>, lossy |-> FALSE, closes |-> 0]
    ELSE [h |-> HApply(x.h, e), all |-> IF e.ev = "write" THEN x.all \o e.xs ELSE x.all,
          lossy |-> x.lossy \/ e.ev \in {"fail", "on", "swap"}, closes |-> x.closes + (IF e.ev = "close" THEN 1 ELSE 0)]
MView(x) == x
\* the node above i
Above(x, i) == CHOOSE j \in 1..Len(x.h.t) : \E m \in 1..Len(x.h.t[j].c) : x.h.t[j].c[m] = i
RECURSIVE Held(_, _), Nop(_, _)
\* what waits in the stages above, nearest first
Held(x, i) == IF i = 1 THEN <<>> ELSE x.h.s[Above(x, i)].q \o Held(x, Above(x, i))
Nop(x, i) == i # 1 /\ (x.h.t[Above(x, i)].k = "nop" \/ Nop(x, Above(x, i)))
Increasing(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
MGood(x) == "new" \in DOMAIN x \/ (
    \A i \in 1..Len(x.h.t) : Leaf(x.h.t[i].k) =>
        LET got == Join(x.h.s[i].got) IN
        \* nothing is invented, repeated or out of order
        /\ Increasing(got) /\ \A m \in 1..Len(got) : got[m] \in 1..Len(x.all)
        \* nothing is lost if nothing fails
        /\ ~x.lossy => IF x.h.s[i].open THEN got \o Held(x, i) = x.all ELSE got = SubSeq(x.all, 1, Len(got))
        \* closing gets everywhere, and all samples do before
        /\ (~x.lossy /\ x.closes = 1 /\ x.h.t[i].k \in {"sink", "file"}) => x.h.s[i].closed = (IF Nop(x, i) THEN 0 ELSE 1))
=============================================================================
