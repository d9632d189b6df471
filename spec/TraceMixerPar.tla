---------------------------- MODULE TraceMixerPar ----------------------------
(* A mixer whose inputs are written, created and removed by several goroutines *)
(* while it mixes.  Inputs 0 and 1 write 1..100 again and again (the second   *)
(* one times 256), so that a frame tells which of their samples it contains.   *)
EXTENDS Integers, Sequences, FiniteSets, TraceDet
PInit(e) == [sz |-> e.sz, cap |-> e.sz * e.frames, n |-> 0, stopped |-> FALSE,
             last |-> [i \in {0, 1} |-> 0], skip |-> [i \in {0, 1} |-> 0], played |-> [i \in {0, 1} |-> 0], left |-> {}]
Part(v, i) == IF i = 0 THEN v % 256 ELSE v \div 256
\* how many numbers lie between a and its successor b
Between(a, b) == (b - a - 1) % 100
RECURSIVE Play(_, _, _)
Play(x, xs, i) ==
    IF xs = <<>> THEN x
    ELSE LET v == Part(xs[1], i) IN
         Play(IF v = 0 THEN x ELSE [x EXCEPT !.last[i] = v, !.skip[i] = @ + Between(x.last[i], v), !.played[i] = @ + 1], Tail(xs), i)
PStep(x, e) ==
    CASE e.ev = "frame" ->
           [st |-> [Play(Play(x, e.o.xs, 0), e.o.xs, 1) EXCEPT !.n = @ + 1], obs |-> [none |-> 0],
            rel |-> [frame |-> /\ Len(e.o.xs) = x.sz
                               /\ \A k \in 1..Len(e.o.xs) : \A i \in {0, 1} :
                                     /\ e.o.xs[k] >= 0 /\ Part(e.o.xs[k], i) <= 100
                                     \* nothing of an input that left; silence within a frame only at its end
                                     /\ i \in x.left => Part(e.o.xs[k], i) = 0
                                     /\ k > 1 /\ Part(e.o.xs[k - 1], i) = 0 => Part(e.o.xs[k], i) = 0,
                     after |-> ~x.stopped]]
      [] e.ev = "left" -> [st |-> [x EXCEPT !.left = @ \cup {e.i}], obs |-> [none |-> 0]]
      [] e.ev = "stopped" -> [st |-> [x EXCEPT !.stopped = TRUE], obs |-> [none |-> 0]]
      [] e.ev = "end" ->
           LET d == e.o.input[3] mixed == e.o.input[4] IN
           [st |-> x, obs |-> [none |-> 0],
            rel |-> [tracks |-> e.o.tracks = e.o.want,
                     pace |-> x.stopped \/ x.n = 200,
                     frame |-> x.skip[0] + x.skip[1] <= d /\ x.played[0] + x.played[1] <= mixed,
                     input |-> /\ <<e.o.input[1], e.o.input[2]>> = e.o.written
                               /\ d + mixed <= e.o.input[1]
                               /\ mixed <= e.o.input[5] * x.sz,
                     output |-> /\ e.o.output[1] = e.o.output[2] /\ e.o.output[3] = x.sz * e.o.output[2] /\ e.o.output[4] = 0
                                /\ x.stopped \/ e.o.output[2] = x.n]]
=============================================================================
