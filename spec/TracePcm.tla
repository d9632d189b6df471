------------------------------ MODULE TracePcm ------------------------------
EXTENDS Pcm, TraceDet
Fill == -21846
Keep(n) == [i \in 1..n |-> Fill]
Same == [z |-> 0]
\* a reader over q gives it piece by piece into buffers of these sizes
Least(a, b) == IF a < b THEN a ELSE b
RECURSIVE Pieces(_, _)
Pieces(q, sizes) ==
    IF sizes = <<>> THEN <<>>
    ELSE LET k == Least(sizes[1], Len(q)) IN <<SubSeq(q, 1, k) \o Keep(sizes[1] - k)>> \o Pieces(SubSeq(q, k + 1, Len(q)), Tail(sizes))
RECURSIVE Counts(_, _)
Counts(n, sizes) == IF sizes = <<>> THEN <<>> ELSE <<Least(sizes[1], n)>> \o Counts(n - Least(sizes[1], n), Tail(sizes))
CStep(x, e) ==
    [st |-> x] @@
    (CASE e.ev = "m2s" ->
           \* dst has room for e.n samples
           IF e.n < 2 * Len(e.src) THEN [obs |-> [panic |-> TRUE, dst |-> Keep(e.n)]]
           ELSE [obs |-> [dst |-> Stereo(e.src) \o Keep(e.n - 2 * Len(e.src)), src |-> e.src]]
      [] e.ev = "s2m" ->
           LET k == Len(e.src) \div 2 n == IF e.inplace THEN Len(e.src) ELSE e.n IN
           IF n < k THEN [obs |-> [panic |-> TRUE, dst |-> Keep(n)]]
           ELSE [obs |-> Same,
                 rel |-> [dst |-> /\ Len(e.o.dst) = n
                                  /\ MonoOK(e.src, SubSeq(e.o.dst, 1, k))
                                  /\ SubSeq(e.o.dst, k + 1, n) = (IF e.inplace THEN SubSeq(e.src, k + 1, n) ELSE Keep(n - k)),
                          src |-> e.inplace \/ e.o.src = e.src]]
      [] e.ev = "copy" ->
           LET b == IF e.typ = "pcm" THEN Bytes(e.src) ELSE e.src IN
           IF e.n < Len(b) THEN [obs |-> [size |-> Len(b), err |-> "short", beyond |-> TRUE]]
           ELSE [obs |-> [size |-> Len(b), err |-> "", k |-> Len(b), bytes |-> b, beyond |-> TRUE]]
      [] e.ev = "clear" -> [obs |-> [dst |-> [i \in 1..Len(e.src) |-> 0]]]
      [] e.ev = "read" ->
           [obs |-> [pieces |-> Pieces(e.src, e.sizes), counts |-> Counts(Len(e.src), e.sizes)]])
CInitOf(e) == [none |-> 0]
=============================================================================
