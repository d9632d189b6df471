------------------------------- MODULE MCG722 -------------------------------
EXTENDS G722, ModelDet
CONSTANTS Total, Chunks
\* two coders and decoders; the coded stream stands for itself (byte number i)
Ref(rate, n) == LET x == QInit(rate, n)
                    b(k) == [i \in 1..(n \div x.per) |-> (100 * k) + i]
                    p(k) == [i \in 1..n |-> (1000 * k) + i]
                IN QRef(QRef(x, 0, b(0), p(0)), 1, b(1), p(1))
MStarts == {[new |-> TRUE]}
MOps(x) == IF "new" \in DOMAIN x THEN {[ev |-> "cfg", rate |-> r] : r \in {8000, 16000}}
           ELSE {[ev |-> "enc", i |-> k, k |-> n] : k \in {0, 1}, n \in {m \in Chunks : TRUE}} \cup
                {[ev |-> "dec", i |-> k, k |-> n] : k \in {0, 1}, n \in Chunks}
Can(x, e) == IF e.ev = "enc" THEN x.q.i[e.i + 1].e + e.k <= x.q.n ELSE x.q.i[e.i + 1].d + (e.k * x.q.per) <= x.q.n
None == [k \in 1..2 |-> <<>>]
MApply(x, e) ==
    IF e.ev = "cfg" THEN [q |-> Ref(e.rate, Total), coded |-> None]
    ELSE IF ~Can(x, e) THEN x
    ELSE IF e.ev = "enc" THEN LET n == QEnc(x.q, e.i, e.k) IN [q |-> n, coded |-> [x.coded EXCEPT ![e.i + 1] = @ \o QCoded(x.q, e.i, n)]]
    ELSE [x EXCEPT !.q = QDec(x.q, e.i, e.k)]
MView(x) == IF "new" \in DOMAIN x THEN x ELSE [rate |-> x.q.rate, p |-> [k \in 1..2 |-> <<x.q.i[k].e, x.q.i[k].d>>]]
\* however it was divided, the stream is the beginning of the whole one
MGood(x) == "new" \in DOMAIN x \/
            \A k \in 1..2 : /\ x.coded[k] = SubSeq(x.q.i[k].bytes, 1, x.q.i[k].e \div x.q.per)
                            /\ x.q.i[k].d <= x.q.n
=============================================================================
