---------------------------- MODULE TraceWriterPar ---------------------------
(* One writer used by several goroutines.  The k-th write of thread t is n     *)
(* times the number 1000 * t + k: writes are not mixed, keep the order of      *)
(* their thread, and count if and only if they happened before Close.           *)
EXTENDS Integers, Sequences, TraceDet
PInit(e) == [kind |-> e.kind, src |-> e.src, dst |-> e.dst, ok |-> 0, must |-> {}, may |-> {}, len |-> [k \in {} |-> 0], closed |-> FALSE, closing |-> 0]
\* the numbers of the blocks in q; <<-1>> if it is not a sequence of whole blocks
RECURSIVE Blocks(_, _, _)
Blocks(x, q, i) ==
    IF i > Len(q) THEN <<>>
    ELSE IF q[i] \notin DOMAIN x.len THEN <<-1>>
    ELSE LET n == x.len[q[i]] IN
         IF i + n - 1 > Len(q) \/ \E k \in i..(i + n - 1) : q[k] # q[i] THEN <<-1>>
         ELSE <<q[i]>> \o Blocks(x, q, i + n)
PStep(x, e) ==
    CASE e.ev = "call" -> LET k == 1000 * e.t + e.i IN
                          [st |-> [x EXCEPT !.len = (k :> e.n) @@ @, !.may = IF x.closed THEN @ ELSE @ \cup {k}], obs |-> [none |-> 0]]
      [] e.ev = "ret" -> LET k == 1000 * e.t + e.i IN
                         [st |-> [x EXCEPT !.must = IF x.closing > 0 THEN @ ELSE @ \cup {k}, !.ok = IF e.o.err THEN @ ELSE @ + e.n],
                          obs |-> [none |-> 0],
                          rel |-> [err |-> e.o.err => x.kind # "buffer" /\ x.closing > 0]]
      \* a recording of single numbers that is closed meanwhile: it has what was written before, and gets nothing more
      [] e.ev = "round" -> [st |-> x, obs |-> [fails |-> 0, after |-> Len(e.o.xs)],
                            rel |-> [xs |-> /\ \A t \in DOMAIN e.lo :
                                                LET q == SelectSeq(e.o.xs, LAMBDA v : v \div 1000 = t - 1)
                                                IN  Len(q) >= e.lo[t] /\ q = [i \in 1..Len(q) |-> 1000 * (t - 1) + i - 1]
                                            /\ \A i \in DOMAIN e.o.xs : e.o.xs[i] \div 1000 < Len(e.lo)]]
      [] e.ev = "closing" -> [st |-> [x EXCEPT !.closing = @ + 1], obs |-> [none |-> 0]]
      [] e.ev = "closed" -> [st |-> [x EXCEPT !.closed = TRUE], obs |-> [none |-> 0]]
      [] e.ev = "end" ->
           LET b == Blocks(x, e.o.xs, 1) IN
           [st |-> x, obs |-> [none |-> 0],
            rel |-> [xs |-> x.kind = "buffer" =>
                              /\ \A i \in 1..Len(b) : b[i] \in x.may
                              /\ \A i \in 1..Len(b) : \A j \in (i + 1)..Len(b) : b[i] \div 1000 = b[j] \div 1000 => b[i] < b[j]
                              /\ \A k \in x.must : \E i \in 1..Len(b) : b[i] = k,
                     sum |-> x.kind = "resample" =>
                              LET due == (x.ok * (x.dst \div 100)) \div (x.src \div 100)
                              IN  IF x.closing > 0 THEN e.o.sum = due /\ e.o.closes = 1 ELSE e.o.sum <= due + 1 /\ e.o.closes = 0]]
=============================================================================
