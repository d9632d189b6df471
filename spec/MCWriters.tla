------------------------------ MODULE MCWriters ------------------------------
EXTENDS Writers, ModelDet
CONSTANTS MaxTargets, MaxWrites
Nums(x, n) == [i \in 1..n |-> Len(x.all) + i - (IF i % 2 = 1 THEN 700 ELSE 0)]
MStarts == {[new |-> TRUE]}
MOps(x) == IF "new" \in DOMAIN x THEN {[ev |-> "size", n |-> n] : n \in 0..MaxTargets}
           ELSE IF x.closed > 0 THEN {}
           ELSE (IF Len(x.frames) < MaxWrites THEN {[ev |-> "write", xs |-> Nums(x, n)] : n \in 0..2} ELSE {})
                \cup {[ev |-> "fail", i |-> i - 1, on |-> ~x.fail[i]] : i \in 1..x.n}
                \cup (IF x.bad THEN {} ELSE {[ev |-> "bad"]})
                \cup (IF x.bufopen THEN {[ev |-> "bufclose"]} ELSE {})
                \cup {[ev |-> "close"]}
MApply(x, e) == IF e.ev = "size" THEN WInit(e.n) ELSE WApply(x, e)
MView(x) == IF "new" \in DOMAIN x THEN x ELSE [x EXCEPT !.got = <<>>, !.err = FALSE]
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Join(Tail(q))
MGood(x) == "new" \in DOMAIN x \/
            (/\ Join(x.frames) = x.all
             /\ Len(x.kept) <= Len(x.all) /\ x.kept = SubSeq(x.all, 1, Len(x.kept))
             /\ x.bufopen => x.kept = x.all
             \* the bytes say what the samples were
             /\ LET b == Bytes(x.all) IN
                /\ Len(b) = 2 * Len(x.all)
                /\ \A i \in 1..Len(x.all) : LET v == b[2 * i - 1] + (256 * b[2 * i]) IN
                      (IF v >= 32768 THEN v - 65536 ELSE v) = x.all[i])
=============================================================================
