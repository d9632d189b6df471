------------------------------- MODULE Writers -------------------------------
(* Fan-out and recording writers (media.go, pcm.go, dump.go).                  *)
EXTENDS Integers, Sequences

\* 16-bit samples as little-endian bytes
U16(v) == IF v < 0 THEN v + 65536 ELSE v
Bytes(xs) == [i \in 1..(2 * Len(xs)) |-> IF i % 2 = 1 THEN U16(xs[(i + 1) \div 2]) % 256 ELSE U16(xs[i \div 2]) \div 256]

\* all: samples of the successful writes; failing: fan-out targets that fail
WInit(n) == [n |-> n, all |-> <<>>, frames |-> <<>>, fail |-> [i \in 1..n |-> FALSE], closed |-> 0, got |-> <<>>, err |-> FALSE, bufopen |-> TRUE,
             kept |-> <<>>, bad |-> FALSE]
AnyFail(x) == \E i \in 1..x.n : x.fail[i]
WApply(x, e) ==
    CASE e.ev = "write" -> [x EXCEPT !.all = @ \o e.xs, !.frames = Append(@, e.xs), !.got = e.xs, !.err = AnyFail(x),
                                     !.kept = IF x.bufopen THEN @ \o e.xs ELSE @]
      [] e.ev = "fail"  -> [x EXCEPT !.fail[e.i + 1] = e.on, !.got = <<>>, !.err = FALSE]
      [] e.ev = "bad"   -> [x EXCEPT !.bad = TRUE, !.got = <<>>, !.err = FALSE]
      [] e.ev = "bufclose" -> [x EXCEPT !.bufopen = FALSE, !.got = <<>>, !.err = FALSE]
      [] e.ev = "close" -> [x EXCEPT !.closed = @ + 1, !.got = <<>>, !.err = AnyFail(x)]
=============================================================================
