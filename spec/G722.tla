-------------------------------- MODULE G722 --------------------------------
(* The G.722 writers (package g722): the coded stream of a sound is what one   *)
(* coder makes of all of it; frames cut that stream, they do not change it.    *)
EXTENDS Integers, Sequences

\* per: samples of a byte
QInit(rate, n) == [rate |-> rate, per |-> IF rate = 8000 THEN 1 ELSE 2, n |-> n,
                   i |-> [k \in 1..2 |-> [bytes |-> <<>>, pcm |-> <<>>, e |-> 0, d |-> 0]]]
QRef(x, k, bytes, pcm) == [x EXCEPT !.i[k + 1].bytes = bytes, !.i[k + 1].pcm = pcm]
\* n samples coded (a last one that does not fill a byte waits), n bytes decoded
QEnc(x, k, n) == [x EXCEPT !.i[k + 1].e = @ + n]
QCoded(x, k, y) == SubSeq(x.i[k + 1].bytes, (x.i[k + 1].e \div x.per) + 1, y.i[k + 1].e \div x.per)
QDec(x, k, n) == [x EXCEPT !.i[k + 1].d = @ + (n * x.per)]
=============================================================================
