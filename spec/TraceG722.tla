------------------------------ MODULE TraceG722 ------------------------------
EXTENDS G722, TraceDet
QStep(x, e) ==
    CASE e.ev = "ref" -> [st |-> QRef(x, e.i, e.bytes, e.pcm), obs |-> [z |-> 0],
                          rel |-> [ref |-> Len(e.bytes) = x.n \div x.per /\ Len(e.pcm) = x.n]]
      [] e.ev = "enc" -> LET n == QEnc(x, e.i, e.k) IN
                         [st |-> n, obs |-> [err |-> e.fail /\ e.o.out # <<>>, in |-> TRUE],
                          \* without a new byte there may be an empty frame or none
                          rel |-> [out |-> e.o.out = <<QCoded(x, e.i, n)>> \/ (QCoded(x, e.i, n) = <<>> /\ e.o.out = <<>>)]]
      [] e.ev = "dec" -> LET n == QDec(x, e.i, e.k) IN
                         [st |-> n, obs |-> [err |-> e.fail, in |-> TRUE, out |-> <<SubSeq(x.i[e.i + 1].pcm, x.i[e.i + 1].d + 1, n.i[e.i + 1].d)>>]]
      [] e.ev = "other" -> [st |-> x, obs |-> [closed |-> 1, quiet |-> TRUE,
                                               total |-> (2 * (x.n \div 2) * (e.rate \div 100)) \div 160]]
      [] e.ev = "encrate" -> [st |-> x, obs |-> IF e.rate \in {8000, 16000} THEN [z |-> 0] ELSE [panic |-> TRUE]]
      [] e.ev = "close" -> [st |-> x, obs |-> [err |-> <<e.fail, e.fail>>, closed |-> <<1, 1>>]]
QInitOf(e) == QInit(e.rate, e.n)
=============================================================================
