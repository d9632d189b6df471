------------------------------ MODULE Resample ------------------------------
(* The resampling writer (resample.go): how many samples come out of it, and   *)
(* in which frames.                                                            *)
EXTENDS Integers, Sequences

\* rates in samples per second; inn, out: samples so far; size: samples of each write if all were the same, or -1
ZInit(src, dst) == [src |-> src, dst |-> dst, inn |-> 0, out |-> 0, open |-> TRUE, size |-> 0, failed |-> FALSE, fail |-> FALSE]
\* rates have a common divisor of 100, products stay small
Due(x) == (x.inn * (x.dst \div 100)) \div (x.src \div 100)
Equal(x) == x.src = x.dst
ZWrite(x, n) == IF ~x.open /\ ~Equal(x) THEN x
                ELSE [x EXCEPT !.inn = @ + n, !.size = IF n = 0 \/ @ = n THEN @ ELSE IF @ = 0 THEN n ELSE -1]
ZClose(x) == [x EXCEPT !.open = FALSE]
ZApply(x, e) == CASE e.ev = "write" -> ZWrite(x, e.n) [] e.ev = "close" -> ZClose(x)
                  [] e.ev = "fail" -> [x EXCEPT !.fail = e.on] [] OTHER -> x
RECURSIVE SumOf(_)
SumOf(q) == IF q = <<>> THEN 0 ELSE q[1] + SumOf(Tail(q))
\* the frame that corresponds to a write of n samples, if the rates are multiples of each other
Whole(x) == x.size > 0 /\ ((x.dst % x.src = 0) \/ (x.src % x.dst = 0 /\ x.size % (x.src \div x.dst) = 0))
FrameOf(x) == (x.size * (x.dst \div 100)) \div (x.src \div 100)
=============================================================================
