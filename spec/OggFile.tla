------------------------------- MODULE OggFile -------------------------------
(* Sound files (package res): a file of Ogg Vorbis sound is read in pieces of  *)
(* whatever size the decoder gives; what comes out is all of its values, cut   *)
(* into frames of 20 ms.  A file that cannot be read, or is not of the rate    *)
(* and the number of channels asked for, is refused.                           *)
EXTENDS Integers, Sequences

\* values of a frame of 20 ms: those of all channels follow each other
Per(rate, channels) == (rate \div 50) * channels

\* lengths of the frames of n values
Cut(n, per) == [i \in 1..((n + per - 1) \div per) |-> IF i * per <= n THEN per ELSE n % per]

\* the reader: pieces come in until the end
FInit(n, rate, channels) == [n |-> n, rate |-> rate, channels |-> channels, read |-> 0, lens |-> <<>>, done |-> FALSE]
FRead(x, k) == [x EXCEPT !.read = @ + k]
RECURSIVE Frames(_, _)
Frames(left, per) == IF left = 0 THEN <<>> ELSE IF left <= per THEN <<left>> ELSE <<per>> \o Frames(left - per, per)
FEnd(x) == [x EXCEPT !.lens = Frames(x.read, Per(x.rate, x.channels)), !.done = TRUE]

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

\* nothing is lost or added, and every frame but the last lasts 20 ms
FInv(x) == /\ x.read <= x.n
           /\ x.done => /\ x.read = x.n
                        /\ Sum(x.lens) = x.n
                        /\ x.lens = Cut(x.n, Per(x.rate, x.channels))
                        /\ \A i \in 1..Len(x.lens) : x.lens[i] > 0 /\ (i < Len(x.lens) => x.lens[i] * 50 = x.rate * x.channels)
=============================================================================
